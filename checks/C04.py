"""C04: a file write that reports success is on disk completely; a failed one says so."""
import random
from world import Scenario
import nj, gcsched
from nj import E, CRASH
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C04'
LEVEL = 'exploration'
RULE = ('case = 2-8 whole-file writes, copies, appends and removals over a few paths (some impossible) with contents around buffer boundaries, a way the system '
        'portions transfers, run once without faults and then with failing opens, writes, closes and reads, full disks, torn writes and deaths at seeded places, '
        'each compared with a model of the files; non-trivial when a fault or crash fired inside an operation; distinct by operations and faults')
ASSUMPTIONS = ['what write(2) accepted is on disk when the process dies (process death, not power loss)', 'fclose releases the descriptor even when it fails, as in glibc']
NOTE = ('Sampled operation sequences against a model of the file system with seeded faults and crash points; the model accepts, after a reported failure or a death, '
        'only the old content or the old/new prefix the operation could have left. Trusts the in-memory file system and glibc stdio.')
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['success-despite-short-writes', 'reported-failure', 'crash-inside-write', 'disk-full', 'close-failed', 'append', 'copy']

PATHS = ['a', 'b', 'd/x', './b', '/sim/d/../a', 'new.bin']
BADPATHS = ['nodir/x', 'd', 'ro', '', 'a/x']
REAL_OF = {'a': 'a', 'b': 'b', 'd/x': 'd/x', './b': 'b', '/sim/d/../a': 'a', 'new.bin': 'new.bin', 'ro': 'ro'}
FAULTS = {'open': [E['EACCES'], E['EMFILE'], E['ENOSPC'], E['EROFS'], E['EIO'], CRASH],
          'write': [E['ENOSPC'], E['EIO'], E['EDQUOT'], E['EFBIG'], CRASH, CRASH],
          'close': [E['EIO'], E['ENOSPC'], E['EDQUOT'], CRASH],
          'read': [E['EIO'], E['ESTALE']], 'seek': [E['EIO'], CRASH], 'access': [E['EACCES']]}

def budget(tier): return 1000 if tier == 'quick' else 30000

def gen(R, i, tier):
    init = {p: nj.content(R).hex() for p in ('a', 'b', 'd/x') if R.random() < .6}
    ops = []
    for _ in range(R.randrange(2, 9)):
        p = R.choice(PATHS) if R.random() < .87 else R.choice(BADPATHS)
        k = R.randrange(12)
        if k < 4: ops.append(['spit', p, nj.content(R, True).hex(), R.choice(['str', 'buf', 'view', 'm%d' % R.randrange(1, 11)])])
        elif k < 5: ops.append(['fwrite', p, nj.content(R).hex(), R.choice(['str', 'buf'])])
        elif k < 7: ops.append(['copy', R.choice(PATHS + BADPATHS[:2]), p])
        elif k < 10:
            ops.append(['put', p, R.choice(['error', 'replace', 'append', 'append', '']),
                        [[nj.content(R).hex(), R.choice(['str', 'buf', 'view', 'm%d' % R.randrange(1, 11)])] for _ in range(R.randrange(1, 4))], R.random() < .3])
        elif k < 11: ops.append(['rm', p])
        else: ops.append(['spitbad', p, R.choice(['42', '#nil', ':sym', '(list 1 2)', '(fn () 1)', '3.5', '#t'])])
    runs = []
    for _ in range(4):
        r = {'f': nj.gen_faults(R, FAULTS)}
        if R.random() < .2: r['cap'] = R.choice([0, 10, 100, 1000, 5000, 20000]) + R.randrange(50); r['f'] = r['f'][:R.randrange(2)]
        if R.random() < .1: r['openmax'] = R.choice([3, 4, 5, 8])
        if R.random() < .3: r['gc'] = gcsched.gen(R, 12)
        runs.append(r)
    return {'init': init, 'ops': ops, 'how': R.choice([0, 1, 3, 7]), 'env': nj.io_env(R), 'runs': runs, 'asan': R.random() < .1}

def cval(h, kind):
    b = bytes.fromhex(h)
    if kind == 'str': return nj.bstr(b)
    if kind[:1] == 'm' and kind[1:].isdigit(): return nj.made(b, int(kind[1:]))     # a string that has come about in some other way
    if kind == 'buf': return nj.buf(b)
    if kind == 'view': return '(:u8 %s)' % nj.buf(b)
    raise Invalid()

def step(op, how=0):
    k = op[0]
    p = nj.made(op[1].encode(), how)
    if k == 'spit': return '(spit %s %s)' % (p, cval(op[2], op[3]))
    if k == 'fwrite': return '(file/write %s %s)' % (cval(op[2], op[3]), p)
    if k == 'copy': return '(file/copy %s %s)' % (p, nj.made(op[2].encode(), how // 3))
    if k == 'rm': return '(rm %s)' % p
    if k == 'spitbad': return '(spit %s %s)' % (p, op[2])
    if k == 'put':
        w = ' '.join('(file/write* h %s)%s' % (cval(h, kd), ' (file/flush* h)' if op[4] else '') for h, kd in op[3])
        return ('(let ((h (file/open-output* %s%s))) (if h (do (try (fn (e) (try (fn () #nil) (file/close* h)) (throw e)) %s) (file/close* h) :ok) #f))'
                % (p, ' :' + op[2] if op[2] else '', w))
    raise Invalid()

# The state of a path: ('is', bytes or None) | ('oneof', [(base bytes or None, more bytes)]) : base + a prefix of more | ('ends', bytes) | ('any',)
def fits(st, have):
    if st[0] == 'is': return have == st[1]
    if st[0] == 'any': return True
    if st[0] == 'ends': return have is not None and have.endswith(st[1])
    for base, more in st[1]:
        if base is None:
            if have is None: return True
        elif have is not None and have[:len(base)] == base and more[:len(have) - len(base)] == have[len(base):] and len(have) <= len(base) + len(more): return True
    return False

def outcomes(st, new, append):
    """What a path may hold after an operation on it failed half-way."""
    if st[0] != 'is': return ('any',)
    old = st[1]
    l = [(old, b'')]
    l.append(((old or b'') if append else b'', new))
    return ('oneof', l)

def judge(case, r, o, what):
    m = {p: ('is', bytes.fromhex(h)) for p, h in case['init'].items()}
    m['ro'] = ('is', b'secret')
    get = lambda p: m.get(p, ('is', None))
    res = nj.results(r)
    failed = {}
    for s, l, d in nj.timeline(r):
        if l.startswith('FAULT') or (l.startswith('open ') and not l.endswith(' 0')): failed.setdefault(s, []).append(l)
    crashed = r.kind == 'crash'
    done = len(res)
    for i, op in enumerate(case['ops']):
        k = op[0]
        path = op[2] if k == 'copy' else op[1]
        tgt = REAL_OF.get(path)
        if path in BADPATHS and not (path == 'ro' and m['ro'] != ('is', b'secret')): tgt = None     # once removed, it may be made anew
        if k == 'rm' and path == 'ro': tgt = 'ro'
        live = i not in res
        if live and not crashed:
            return '%sstep %d %s gave no result' % (what, i, step(op)[:200])
        v = res.get(i)
        new, append, ok, legit = b'', False, None, bool(failed.get(i))
        st = get(tgt) if tgt else None
        if k in ('spit', 'fwrite'):
            new = bytes.fromhex(op[2]); ok = '#t'; bad = ['#f']
        elif k == 'spitbad':
            new = b''; ok = None; bad = ['#f', '(:exc :type-error)']; legit = True
        elif k == 'put':
            new = b''.join(bytes.fromhex(h) for h, _ in op[3]); ok = ':ok'
            append = op[2] == 'append'
            bad = ['#f', '#nil', '(:exc :io-error)']
            if op[2] in ('error', ''):
                # refuses to overwrite
                if st and st[0] != 'is': legit = True
                elif (st and st[1] is not None) or path in ('d', 'ro'):
                    legit = True
                    if not live and v == ':ok':
                        if 'access' in str(failed.get(i)): o.probe('access-lied')
                        else: return '%sstep %d overwrote the existing file %s though that is an error in this mode' % (what, i, path)
        elif k == 'copy':
            src = REAL_OF.get(op[1])
            ss = get(src) if src else ('is', None)
            ok = '#t'; bad = ['#f', '(:exc :type-error)', '(:exc :io-error)']
            if ss[0] == 'is' and ss[1] is None: legit = True
            if ss[0] == 'is': new = ss[1] or b''
            else: new = None
            if ss[0] == 'is' and ss[1] is None and not live and v == '#t': return '%sstep %d copied %s, which does not exist' % (what, i, op[1])
        elif k == 'rm':
            if live: m[tgt] = ('any',); break
            gone = v[0] == '"'
            if tgt is None:
                if gone: return '%sstep %d removed %s' % (what, i, path)
                continue
            if gone: m[tgt] = ('is', None)
            elif st[0] == 'is' and st[1] is not None and not legit: return '%sstep %d could not remove %s: %s' % (what, i, path, v)
            continue
        if live:
            if tgt:
                m[tgt] = ('any',) if new is None else outcomes(st, new, append)
                if crashed: o.probe('crash-inside-write')
            break
        if v == ok:
            if tgt is None: return '%sstep %d on %s can not have succeeded' % (what, i, path)
            if new is None: m[tgt] = ('any',)
            elif append: m[tgt] = ('is', (st[1] or b'') + new) if st[0] == 'is' else ('ends', new)
            else: m[tgt] = ('is', new)
            if append: o.probe('append')
            if k == 'copy': o.probe('copy')
            if legit: o.probe('success-despite-short-writes')
        else:
            if v not in bad: return '%sstep %d returned %s: %s' % (what, i, v, step(op)[:200])
            if tgt is not None and not legit: return '%sstep %d reported a failure (%s) though nothing failed: %s' % (what, i, v, step(op)[:200])
            o.probe('reported-failure')
            if 'FAULT close' in str(failed.get(i)): o.probe('close-failed')
            if 'disk-full' in str(failed.get(i)): o.probe('disk-full')
            if tgt:
                if k == 'copy' and v.startswith('(:exc'): pass          # the source could not be read: nothing was written
                elif k == 'put' and v in ('#f', '#nil'): pass           # was not opened
                else: m[tgt] = ('any',) if new is None else outcomes(st, new, append)
    base = '/sim/'
    have = r.files()
    for p in set(m) | set(x[len(base):] for x in have):
        h = have.get(base + p)
        if not fits(get(p), h):
            return '%s%s holds %s instead of %s (after %s)' % (what, p, short(h), desc(get(p)), [(i, res.get(i)) for i in range(len(case['ops']))])
    if not crashed:
        x = nj.exitline(r)
        if x.get('open') != '0': return '%s%s file handles are still open at the end' % (what, x.get('open'))

def short(b):
    if b is None: return 'nothing'
    return '%d bytes %r%s' % (len(b), b[:40], '...' if len(b) > 40 else '')
def desc(st):
    if st[0] == 'is': return short(st[1])
    return repr([(short(a), short(b)) for a, b in st[1]]) if st[0] == 'oneof' else repr(st)[:100]

def scen(case):
    s = nj.steps([step(op, case.get('how', 0) * i) for i, op in enumerate(case['ops'])])
    s.add('loglevel 2').dir('/sim/d').add('file', nj.H('/sim/ro'), b'secret'.hex(), 1)
    for p, h in case['init'].items(): s.file('/sim/' + p, bytes.fromhex(h))
    for l in case['env']: s.add(l)
    return s

def execute(case, env, o):
    if not case['ops']: raise Invalid()
    for op in case['ops']:
        if op[0] == 'put' and not op[3]: raise Invalid()
        if op[1] not in PATHS + BADPATHS or (op[0] == 'copy' and op[2] not in PATHS + BADPATHS): raise Invalid()
        if op[0] == 'put' and op[2] not in ('error', 'replace', 'append', ''): raise Invalid()
    if any(p not in REAL_OF for p in case['init']): raise Invalid()
    w = env.world(case.get('asan', False))
    base = o.see(w.run(scen(case)))
    if always_bad(base, o): return
    if base.kind != 'exit' or base.status: o.violation('ending', 'ended by %s %s' % (base.kind, base.status)); return
    m = judge(case, base, o, 'without faults: ')
    if m: o.violation('model', m); return
    n = nj.calls(base)
    for x in case['runs']:
        fl = nj.place(x['f'], n)
        s = scen(case)
        for l in fl: s.add(l)
        if 'cap' in x: s.add('cap %d' % x['cap'])
        if 'openmax' in x: s.add('openmax %d' % x['openmax'])
        if 'gc' in x:
            for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'with %s%s%s: ' % (fl, ' cap %d' % x['cap'] if 'cap' in x else '', ' openmax %d' % x['openmax'] if 'openmax' in x else '')
        if always_bad(r, o, what): return
        if r.kind not in ('exit', 'crash') or (r.kind == 'exit' and r.status):
            o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.head['faults']: o.nontrivial = True
        m = judge(case, r, o, what)
        if m: o.violation('model', m); return
    o.key = repr((case['ops'], case['runs']))
