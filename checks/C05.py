"""C05: reading a file returns all of its bytes or reports failure."""
import nj, gcsched
from nj import E, CRASH
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C05'
LEVEL = 'exploration'
RULE = ('case = 2-8 whole-file reads, copies and evaluations of files with contents around buffer boundaries, portioned by the system in seeded ways, once without faults and then with failing or '
        'shrinking reads, failing opens, seeks and closes and injected collections; non-trivial when a fault fired inside a read; distinct by operations and faults')
ASSUMPTIONS = ['a file that shrinks during a read may be reported as failed; what is returned must be the full content it had before or after']
NOTE = 'Sampled reads against the content of the in-memory files, with seeded faults. Trusts the in-memory file system and glibc stdio.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['reported-failure', 'full-content', 'shrunk', 'success-despite-fault', 'copy']

FAULTS = {'open': [E['EACCES'], E['EMFILE'], E['ENOENT'], E['EIO']], 'read': [E['EIO'], E['ESTALE'], E['EINTR'], 0, 0], 'seek': [E['EIO'], E['EINVAL']],
          'close': [E['EIO']]}
FILES = ['a', 'b', 'd/x', 'n.nuj', 'z']
BAD = ['missing', 'nodir/q', 'd', 'ro', 'a/b', '']
WAYS = ['slurp', 'slurp/buffer', 'file/read', 'file/read/buffer']

def budget(tier): return 1000 if tier == 'quick' else 40000

def gen(R, i, tier):
    files = {f: nj.content(R, True).hex() for f in FILES[:3]}
    files['z'] = ''
    files['n.nuj'] = ''
    ops = []
    for _ in range(R.randrange(2, 9)):
        p = R.choice(FILES) if R.random() < .85 else R.choice(BAD)
        k = R.randrange(10)
        if k < 7: ops.append(['read', p, R.choice(WAYS)])
        elif k < 8: ops.append(['copy', p])
        elif k < 9: ops.append(['change', R.choice(FILES[:3]), nj.content(R).hex()])
        else: ops.append(['hold', p, R.choice(['slurp', 'file/read']), R.randrange(2, 6)])
    runs = []
    for _ in range(4):
        fs = nj.gen_faults(R, FAULTS)
        for f in fs:
            if f['op'] == 'read' and f['err'] == 0: f['arg'] = R.choice([0, 1, 10, 500, 4096, 8000, 30000]); f.pop('on', None)
        r = {'f': fs}
        if R.random() < .4: r['gc'] = gcsched.gen(R, 12)
        runs.append(r)
    return {'files': files, 'ops': ops, 'how': R.choice([0, 1, 3, 7]), 'env': nj.io_env(R), 'runs': runs, 'asan': R.random() < .12}

def step(op, how=0):
    p = nj.made(op[1].encode(), how)
    if op[0] == 'read': return '(%s %s)' % (op[2], p)
    if op[0] == 'copy': return '(file/copy %s "out")' % p
    if op[0] == 'change': return '(spit %s %s)' % (p, nj.buf(bytes.fromhex(op[2])))
    # several reads held at once, looked at afterwards
    return '(let ((l (map (range %d) (fn (i) (%s %s))))) (if (filter l (fn (x) (not (= x (car l))))) :different (car l)))' % (op[3], op[2], p)

def scen(case):
    s = nj.steps([step(op, case.get('how', 0) * i) for i, op in enumerate(case['ops'])], raw=True).add('loglevel 2').dir('/sim/d').add('file', nj.H('/sim/ro'), b'secret'.hex(), 1)
    for f, h in case['files'].items(): s.file('/sim/' + f, bytes.fromhex(h))
    for l in case['env']: s.add(l)
    return s

def judge(case, r, o, what):
    cur = {f: [bytes.fromhex(h)] for f, h in case['files'].items()}   # what each file may hold
    res = nj.results(r)
    ev = {}
    for s, l, d in nj.timeline(r): ev.setdefault(s, []).append(l)
    out = None
    for i, op in enumerate(case['ops']):
        v = res.get(i)
        if v is None: return '%sstep %d %s gave no result' % (what, i, step(op)[:200])
        es = ev.get(i, [])
        bad = [l for l in es if l.startswith('FAULT') or (l.startswith('open ') and not l.endswith(' 0'))]
        poss = cur.get(op[1])
        if op[0] == 'change':
            if v == '#t': cur[op[1]] = [bytes.fromhex(op[2])]
            elif not bad: return '%sstep %d: writing failed by itself: %s' % (what, i, v)
            else: cur[op[1]] = None
            continue
        shr = []
        for l in bad:
            w = l.split(' ')
            if w[1:2] == ['read'] and w[3] == '0': shr.append(int(w[4])); o.probe('shrunk')
        if poss is not None and shr:
            poss = poss + [c[:n] for c in poss for n in shr]
            cur[op[1]] = [poss[-1]] if len(shr) == 1 and len(cur[op[1]]) == 1 else poss
        if op[0] == 'copy':
            have = v == '#t'
            if have and op[1] in BAD: return '%sstep %d copied %s' % (what, i, op[1])
            if not have and not bad and op[1] not in BAD: return '%sstep %d: copying failed by itself: %s' % (what, i, v)
            if have: out = poss; o.probe('copy')
            elif v == '#f' : out = False
            elif not v.startswith('(:exc'): return '%sstep %d: copying %s gave %s' % (what, i, op[1], v)
            continue
        isb = 'buffer' in op[2]
        if isinstance(v, tuple):
            if op[1] in BAD: return '%sstep %d read %r from %s, which can not be read' % (what, i, v[1][:100], op[1])
            if v[0] != ('buffer' if isb else 'string'): return '%sstep %d gave a %s' % (what, i, v[0])
            if op[1] in cur and cur[op[1]] is not None and v[1] not in poss:
                return '%sstep %d: %s returned %d bytes %r... instead of the %s bytes of %s' % (what, i, step(op)[:80], len(v[1]), v[1][:60], [len(x) for x in poss], op[1])
            o.probe('full-content')
            if bad: o.probe('success-despite-fault')
        else:
            if v not in ('#nil', '(:exc :type-error)', '(:exc :io-error)'): return '%sstep %d: reading %s gave %s' % (what, i, op[1], v[:200])
            if op[1] not in BAD and not bad: return '%sstep %d: reading %s failed by itself: %s' % (what, i, op[1], v)
            o.probe('reported-failure')
    if out:
        h = r.files().get('/sim/out')
        if h not in out: return '%sthe copy holds %s bytes %r' % (what, h is not None and len(h), h and h[:60])
    x = nj.exitline(r)
    if x.get('open') != '0': return '%s%s file handles are still open at the end' % (what, x.get('open'))

def execute(case, env, o):
    if not case['ops'] or set(case['files']) != set(FILES): raise Invalid()
    for op in case['ops']:
        if op[1] not in FILES + BAD or (op[0] in ('read', 'hold') and op[2] not in WAYS) or (op[0] == 'hold' and not 2 <= op[3] < 9): raise Invalid()
    w = env.world(case.get('asan', False))
    base = o.see(w.run(scen(case)))
    if always_bad(base, o): return
    if base.kind != 'exit' or base.status: o.violation('ending', 'ended by %s %s' % (base.kind, base.status)); return
    m = judge(case, base, o, 'without faults: ')
    if m: o.violation('model', m); return
    n = nj.calls(base)
    for x in case['runs']:
        fl = nj.place(x['f'], n)
        s = scen(case)
        for l in fl: s.add(l)
        if 'gc' in x:
            for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'with %s: ' % fl
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.head['faults']: o.nontrivial = True
        m = judge(case, r, o, what)
        if m: o.violation('model', m); return
    o.key = repr((case['ops'], case['runs']))
