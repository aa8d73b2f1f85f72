"""C06: running a command returns exactly its output and exit code."""
import zlib
import nj, gcsched
from nj import E
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C06'
LEVEL = 'exploration'
RULE = ('case = 1-6 commands with seeded texts, outputs (sizes around the buffer steps, all bytes), exit statuses or killing signals, run once with whole reads and then with split pipe reads, failing '
        'popen/read/pclose/allocation and collections; non-trivial when the output was split or something failed; distinct by commands, outputs and faults')
ASSUMPTIONS = ['the shell and the child are a model: what matters is the command text handed over and the bytes and status coming back']
NOTE = 'Sampled commands against the scripted child: command text, every byte, status. At the end a collection verifies that no native memory is unowned and no pipe is open.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['big-output', 'signal', 'split', 'pread-failed', 'popen-failed', 'pclose-failed', 'trim', 'alloc-failed']
FAULTS = {'popen': [E['EMFILE'], E['ENOMEM'], E['EAGAIN']], 'pread': [E['EIO'], E['EINTR']], 'pclose': [E['ECHILD'], E['EINTR']]}

def budget(tier): return 1000 if tier == 'quick' else 40000

def gen(R, i, tier):
    cmds = []
    for _ in range(R.randrange(1, 7)):
        n = R.choice([0, 1, 2, 10, 100, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 20000] + ([65535, 65536, 70000, 300000] if R.random() < .2 else []))
        d = nj.data(R, n)
        if R.random() < .2: d = R.choice([b' ', b'\n', b'\t \n']) + d + R.choice([b'\n', b' \r\n', b'  '])
        cmd = ''.join(R.choice('abz -/"\'\\$;|<>&*?#()[]{}!%=~`^\t\n\x01\xe9') for _ in range(R.randrange(1, 60)))
        st = R.choice([0, 0, 0, 1 << 8, 2 << 8, 127 << 8, 255 << 8, R.randrange(256) << 8, 9, 15, 11 | 128, 6, 2])
        if cmd.encode('latin-1').hex() in [c[0] for c in cmds]: continue
        cmds.append([cmd.encode('latin-1').hex(), d.hex(), st, R.choice(['popen', 'popen', 'popen', 'popen/trim'])])
    runs = []
    for _ in range(3):
        r = {'f': nj.gen_faults(R, FAULTS, R.choice([0, 1, 1, 2])), 'chunk': [R.choice([1, 7, 100, 511, 512, 1000, 4096, 0]) for _ in range(R.randrange(0, 5))]}
        if R.random() < .3: r['buf'] = R.choice([0, 1, 64, 1000, 5000])
        if R.random() < .5: r['gc'] = gcsched.gen(R, 12)
        if R.random() < .25: r['oom'] = R.randrange(1000000)
        runs.append(r)
    return {'cmds': cmds, 'runs': runs, 'asan': R.random() < .12}

def scen(case):
    xs = []
    for cmd, d, st, way in case['cmds']:
        c = nj.made(bytes.fromhex(cmd), [0, 2, 3, 4, 6, 7, 8][zlib.crc32(cmd.encode()) % 7])
        if way == 'popen': xs += ['(do (set! r #nil) (set! r (popen %s)) (car r))' % c, '(cdr r)']
        else: xs += ['(do (set! r (list 0 1)) 0)', '(popen/trim %s)' % c]
    xs += ['(do (set! r #nil) (dotimes (i 20) i) 0)']
    s = nj.steps(xs, pre='(def r #nil)', raw=True).add('loglevel 2')
    for cmd, d, st, way in case['cmds']: s.add('proc', st, d or '-')
    return s

WS = b' \t\n\r\x0b\x0c'

def execute(case, env, o):
    if not case['cmds']: raise Invalid()
    if len(set(c[0] for c in case['cmds'])) != len(case['cmds']): raise Invalid()
    for c in case['cmds']:
        if not c[0] or '00' in [c[0][k:k+2] for k in range(0, len(c[0]), 2)] or c[3] not in ('popen', 'popen/trim'): raise Invalid()
        if 0 < (c[2] & 127) and c[2] >> 8: raise Invalid()
    w = env.world(case.get('asan', False))
    n, base, outs = {}, None, []
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl = []
        if x:
            fl = nj.place(x['f'], n)
            for l in fl: s.add(l)
            if x['chunk']: s.add('chunk pipe ' + ' '.join(map(str, x['chunk']))); o.nontrivial = True; o.probe('split')
            if 'buf' in x: s.add('bufsize %d' % x['buf'])
            if 'oom' in x and len(outs) > 1:
                lo, hi = outs[0], outs[-1]
                l = 'fault malloc %d 12' % (lo + (hi - lo) * x['oom'] // 1000000)
                fl = fl + [l]; s.add(l)
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        if base is not None: s.add('gcat %d' % (base.head['safepoints'] - 3))
        r = o.see(w.run(s))
        if base is None:
            base = r; n = nj.calls(r)
            outs = [int(l.split(' ')[3]) for l in r.log.split('\n') if l.startswith('out ')]
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        oom = 'FAULT malloc' in r.log
        if oom: o.probe('alloc-failed'); o.nontrivial = True
        if r.kind != 'exit' or (r.status and not oom): o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        res = nj.results(r)
        sent, fs = [], {}
        for st, l, d in nj.timeline(r):
            if l.startswith('popen'): sent.append((st, d))
            if l.startswith('FAULT'): fs.setdefault(st - st % 2, []).append(l); fs.setdefault(st - st % 2 + 1, []).append(l)
        if oom: # the markers of the steps may be missing too: go by the calls
            q, j = 0, 0
            tl = nj.timeline(r)
            for z, (st, l, d) in enumerate(tl):
                if not l.startswith('popen'): continue
                while j < len(case['cmds']) and bytes.fromhex(case['cmds'][j][0]) != d: j += 1
                if j == len(case['cmds']): o.violation('command', '%shanded to the shell: %r' % (what, d)); return
                b = res.get(2 * j + 1)
                failed = z and tl[z - 1][1].startswith('FAULT popen')
                b = res.get(2 * j + 1)
                if isinstance(b, tuple):
                    if failed: o.violation('partial', '%scommand %d gave %s though it never ran' % (what, j, short(b))); return
                    dd = bytes.fromhex(case['cmds'][q][1])
                    if case['cmds'][j][3] == 'popen/trim': dd = dd.strip(WS)
                    if b != ('string', dd): o.violation('model', '%scommand %d gave %s instead of %s' % (what, j, short(b), short(('string', dd)))); return
                j += 1
                if not failed: q += 1
            continue
        q = 0 # scripted children are used in order, a failing popen uses none
        for j, (cmd, d, st, way) in enumerate(case['cmds']):
            a, b = res.get(2 * j), res.get(2 * j + 1)
            mine = [dd for ss, dd in sent if ss in (2 * j, 2 * j + 1)]
            bad = fs.get(2 * j, [])
            if (len(mine) != 1 or mine[0] != bytes.fromhex(cmd)):
                o.violation('command', '%scommand %d handed to the shell: %r instead of %r' % (what, j, mine, bytes.fromhex(cmd))); return
            if any('popen' in l for l in bad): o.probe('popen-failed')
            if any('pread' in l for l in bad): o.probe('pread-failed'); o.nontrivial = True
            if any('pclose' in l for l in bad): o.probe('pclose-failed')
            took = bool(mine) and not any('popen' in l for l in bad)
            dd, sst = (bytes.fromhex(case['cmds'][q][1]), case['cmds'][q][2]) if q < len(case['cmds']) else (b'', 0)
            if took: q += 1
            code = 128 + (sst & 127) if sst & 127 else sst >> 8
            if sst & 127: o.probe('signal')
            if len(dd) > 8000: o.probe('big-output')
            if way == 'popen/trim': o.probe('trim'); dd = dd.strip(WS)
            hard = [l for l in bad if 'pclose' not in l]
            good = b == ('string', dd) and (way == 'popen/trim' or a == str(code) or any('pclose' in l for l in bad))
            if good and not any('popen' in l or 'pread' in l for l in bad): continue
            if hard:
                if isinstance(b, tuple) or (way == 'popen' and a not in ('#nil', '(:exc :type-error)', '(:exc :out-of-memory)')):
                    o.violation('partial', '%scommand %d gave %s %s though %s' % (what, j, a, short(b), bad)); return
                continue
            if any('pclose' in l for l in bad) and not isinstance(b, tuple): continue
            o.violation('model', '%scommand %d gave %s %s instead of %d and %s' % (what, j, a, short(b), code, short(('string', dd)))); return
        x = nj.exitline(r)
        if x.get('open') != '0': o.violation('leak', '%s%s pipes are still open at the end' % (what, x.get('open'))); return
    o.key = repr((case['cmds'], case['runs']))

def short(v):
    if isinstance(v, tuple): return '%s of %d bytes %r' % (v[0], len(v[1]), v[1][:80])
    return v
