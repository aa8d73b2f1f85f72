"""C15: a module is loaded once, whole, and a failed load can be retried."""
import nj, gcsched
from nj import E
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C15'
LEVEL = 'exploration'
RULE = ('case = 1-7 source files in nested directories importing each other without cycles by seeded spellings of their paths, and up to 40 steps importing, reading, changing and comparing what they export, asking for what they '
        'do not export, replacing, breaking, removing and repairing files and changing the directory; as expressions or from a script; run under seeded collections, portioned reads and failing opens and reads; '
        'every load observed and every result compared with a model of the module system; non-trivial when a load failed or a module was imported more than once; distinct by history')
ASSUMPTIONS = ['no module imports itself, directly or through others', 'module paths of at most 93 bytes (see C13)', 'a module named by a keyword is named by its normalised path']
NOTE = 'Sampled module graphs, histories and faults against a model of the module cache.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['cached', 'shared-state', 'private', 'missing', 'broken', 'threw', 'dependency-failed', 'retried', 'changed-before', 'changed-after', 'absolute', 'dotted', 'keyword', 'read-failed', 'script', 'collected', 'library', 'cd']
FAULTS = {'open': [E['EIO'], E['EACCES'], E['EMFILE'], E['ENFILE'], E['EINTR']], 'read': [E['EIO'], E['ESTALE']]}
DIRS = ['', 'a', 'a/b', 'c', 'c/d/e']
LIBS = [(':random', 'rng'), (':crypto/md5', 'hash'), (':serialization/json', 'serialize'), (':net/http', 'get')]
STATES = ['ok', 'ok', 'ok', 'ok', 'bad', 'early', 'late', 'missing']

BAD = ['(def unclosed (list 1 2', ')', ']', '}', '(list 1 2]', '[1 2)', '"unclosed', '1.2.3', '12x', '#x1g', '( . 3)', '{:a 1', '[1 2', '(quote (a', '"bad \\q escape"', '99999999999999999999', '@(a 1', '#(1 2', ':a:b', ')', '(def done 1))', '(let ((a 1)) a))']
RAISE = ['(throw (list :late 1))', '(no-such-procedure 1)', '(ref (array/new 1 2) 7)', '(export nothing nothing)', '(set! never-defined 3)', '(import (v) "no-such-file")', '(import (nothing-of-it) :random)', '(throw :plain)', '(+ 1 :a)', '(apply 3 #nil)', '(read ")")', '(eval (quote (throw :late)))', '(typecheck/only 3 :string)', '(exception "late" 1)']

def budget(tier): return 700 if tier == 'quick' else 30000

def state(R, k, ver):
    return {'ver': ver, 'st': R.choice(STATES), 'deps': [[j, R.randrange(1000)] for j in sorted(R.sample(range(k), min(k, R.choice([0, 0, 1, 2, 3]))))], 'pad': R.choice([0, 0, 0, 300, 5000] + ([70000] if R.random() < .1 else [])), 'bad': R.randrange(len(BAD)), 'raise': R.randrange(len(RAISE)), 'at': R.randrange(1000), 'more': R.choice([0, 0, 0, 5, 60])}

def gen(R, i, tier):
    n = R.randrange(1, 8)
    mods = [{'dir': R.choice(DIRS), 's': state(R, k, k + 1)} for k in range(n)]
    steps = []
    for _ in range(R.choice([3, 8, 15, 40])):
        x, k, sp = R.random(), R.randrange(n), R.randrange(1000)
        if x < .3: st = ['imp', k, sp, R.choice(['v', 'cell', 'get', 'sum', 'v', 'sum'])]
        elif x < .36: st = ['as', k, sp]
        elif x < .42: st = ['priv', k, sp]
        elif x < .46: st = ['nosym', k, sp]
        elif x < .54: st = ['same', k, sp, R.randrange(1000)]
        elif x < .64: st = ['setcell', k, sp, R.randrange(1000)]
        elif x < .68: st = ['three', k, sp]
        elif x < .9: st = ['write', k, state(R, k, R.randrange(100, 1000))]
        elif x < .93: st = ['cd', R.randrange(len(DIRS))]
        elif x < .97: st = ['lib', R.randrange(len(LIBS))]
        else: st = ['gone', R.choice([':never/heard-of', '"never-written"', '"a/nope"', ':/sim/nope'])]
        steps.append(st)
    runs = []
    for _ in range(3):
        r = {'f': nj.gen_faults(R, FAULTS) if R.random() < .6 else [], 'env': nj.io_env(R)}
        if R.random() < .5: r['gc'] = gcsched.gen(R, 20)
        runs.append(r)
    return {'mods': mods, 'steps': steps, 'script': R.random() < .4, 'runs': runs, 'asan': R.random() < .08}

def mpath(case, k):
    d = case['mods'][k]['dir']
    return '/sim/' + (d + '/' if d else '') + 'm%d' % k

def rel(frm, to):
    f = [x for x in frm.split('/') if x]; t = to.split('/')[1:]
    n = 0
    while n < len(f) and n < len(t) - 1 and f[n] == t[n]: n += 1
    return '/'.join(['..'] * (len(f) - n) + t[n:])

def spell(case, k, here, sp):
    """A way to name module k from the directory here."""
    p = mpath(case, k)
    r = rel(here, p)
    m = sp % 7
    if m == 0: return '"%s"' % r
    if m == 1: return '"%s"' % (r if r.startswith('..') else './' + r)
    if m == 2: return '"%s"' % p
    if m == 3: return ':' + p
    if m == 4: return '"%s"' % ('x/../' + r)
    if m == 5: return '"%s"' % r.replace('/', '//')
    h = here.rstrip('/').split('/')
    return '"%s"' % ('y/z/../.././' + r)

def source(case, k, s):
    here = '/' .join(mpath(case, k).split('/')[:-1])
    L = ['(print "@%d\\n")' % k]
    if s['pad']: L.append(';' + 'x' * s['pad'])
    if s['st'] == 'early': L.append('(throw (list :early %d))' % k)
    for j, sp in s['deps']: L.append('(import (sum :as sum%d) %s)' % (j, spell(case, j, here, sp)))
    L += ['(def v %d)' % s['ver'], '(def priv %d)' % s['ver'], '(def cell (array/new %d))' % s['ver'], '(export v v)', '(export cell cell)', '(defn get () :export (ref cell 0))',
          '(defn sum () :export (+ v %s))' % ' '.join('(sum%d)' % j for j, sp in s['deps']) if s['deps'] else '(defn sum () :export v)']
    fixed = len(L) - 7
    for x in range(s.get('more', 0)): L.insert(fixed, '(export extra%d (list %d "%s"))' % (x, x, 'z' * (x % 7)))
    if s['st'] == 'late': L.insert(fixed + s.get('at', 0) % (len(L) - fixed + 1), RAISE[s.get('raise', 0)])
    if s['st'] == 'bad': L.insert(s.get('at', 0) % (len(L) + 1), BAD[s.get('bad', 0)])
    return '\n'.join(L) + '\n'

def expr(case, st):
    here = '/sim/a' if case['script'] else '/sim'
    k = st[0]
    p = spell(case, st[1], here, st[2]) if k in ('imp', 'as', 'priv', 'nosym', 'same', 'setcell', 'three') else None
    if k == 'imp': return {'v': '(do (import (v) %s) v)', 'cell': '(do (import (cell) %s) (ref cell 0))', 'get': '(do (import (get) %s) (get))', 'sum': '(do (import (sum) %s) (sum))'}[st[3]] % p
    if k == 'as': return '(do (import (v :as other get) %s) (list other (get)))' % p
    if k == 'priv': return '(do (import (priv) %s) priv)' % p
    if k == 'nosym': return '(do (import (no-such) %s) no-such)' % p
    if k == 'same': return '(= (module/load %s (current-closure)) (module/load %s (current-closure)))' % (p, spell(case, st[1], here, st[3]))
    if k == 'setcell': return '(do (import (cell) %s) (set! cell 0 %d) (ref cell 0))' % (p, st[3])
    if k == 'three': return '(let ((l #nil)) (dotimes (i 3) (import (v) %s) (set! l (cons v l))) l)' % p
    if k == 'write':
        f = mpath(case, st[1]) + '.nuj'
        if st[2]['st'] == 'missing': return '(do (rm "%s") :gone)' % f
        return '(spit "%s" %s)' % (f, '"' + source(case, st[1], st[2]).replace('\\', '\\\\').replace('"', '\\"') + '"')
    if k == 'cd': return '(do (cd "/sim/%s") :there)' % DIRS[st[1]]
    if k == 'lib': m, n = LIBS[st[1]]; return '(let ((a (do (import (%s) %s) %s)) (b (do (import (%s :as q) %s) q))) (= a b))' % (n, m, n, n, m)
    if k == 'gone': return '(do (import (v) %s) v)' % st[1]
    raise Invalid()

class Fail(Exception): pass

class Model:
    def __init__(self, case, opens):
        self.c, self.opens, self.cache, self.files, self.fl, self.loads = case, opens, {}, [dict(m['s']) for m in case['mods']], set(), []
        self.failed = set(); self.tried = set()
    def load(self, k):
        if k in self.cache: self.fl.add('cached'); return self.cache[k]
        s = self.files[k]
        q = self.opens
        f = mpath(self.c, k) + '.nuj'
        while q and q[0][0] != f: q.pop(0)
        bad = q.pop(0)[1] if q else False
        if k in self.failed: self.fl.add('retried')
        self.failed.add(k)
        if bad: self.fl.add('read-failed'); raise Fail
        if s['st'] == 'missing': self.fl.add('missing'); raise Fail
        if s['st'] == 'bad': self.fl.add('broken'); raise Fail
        self.loads.append(k)
        if s['st'] == 'early': self.fl.add('threw'); raise Fail
        ds = []
        for j, sp in s['deps']:
            try: ds.append(self.load(j))
            except Fail: self.fl.add('dependency-failed'); raise
        if s['st'] == 'late': self.fl.add('threw'); raise Fail
        self.failed.discard(k)
        if s.get('new'): self.fl.add('changed-before')
        m = {'v': s['ver'], 'cell': s['ver'], 'deps': ds}
        self.cache[k] = m
        return m
    def total(self, m): return m['v'] + sum(self.total(d) for d in m['deps'])
    def step(self, st):
        k = st[0]
        if k == 'write':
            if st[1] in self.cache: self.fl.add('changed-after')
            gone = st[2]['st'] == 'missing'
            self.files[st[1]] = dict(st[2], new=True)
            return ':gone' if gone else '#t'
        if k == 'cd': self.fl.add('cd'); return ':there'
        if k == 'lib': self.fl.add('library'); return '#t'
        try:
            if k == 'gone': raise Fail
            m = self.load(st[1])
            if k == 'imp':
                if st[3] == 'get': self.fl.add('shared-state')
                return str({'v': m['v'], 'cell': m['cell'], 'get': m['cell'], 'sum': self.total(m)}[st[3]])
            if k == 'as': return '(%d %d)' % (m['v'], m['cell'])
            if k in ('priv', 'nosym'): self.fl.add('private'); raise Fail
            if k == 'same': return '#t'
            if k == 'setcell': m['cell'] = st[3]; return str(st[3])
            if k == 'three': return '(%d %d %d)' % ((m['v'],) * 3)
        except Fail: return None

def scen(case):
    xs = [expr(case, st) for st in case['steps']]
    if case['script']:
        src = nj.PRE + '\n' + '\n'.join('(R %d (fn () %s))' % (j, x) for j, x in enumerate(xs)) + '\n'
        s = Scenario().args('nujel', 'a/main.nuj').dir('/sim/a').file('/sim/a/main.nuj', src.encode())
    else: s = nj.steps(xs).dir('/sim/a')
    for d in ('a/b', 'c', 'c/d', 'c/d/e'): s.dir('/sim/' + d)
    for k, m in enumerate(case['mods']):
        if m['s']['st'] != 'missing': s.file(mpath(case, k) + '.nuj', source(case, k, m['s']).encode())
    return s.add('loglevel 2')

def valid(case):
    n = len(case['mods'])
    N = {'imp': 4, 'as': 3, 'priv': 3, 'nosym': 3, 'same': 4, 'setcell': 4, 'three': 3, 'write': 3, 'cd': 2, 'lib': 2, 'gone': 2}
    if not n or not case['steps'] or not case['runs']: raise Invalid()
    def ok(k, s):
        if not isinstance(s, dict) or s['st'] not in STATES or s['pad'] < 0 or any(len(d) != 2 or not 0 <= d[0] < k or d[1] < 0 for d in s['deps']) or len(set(d[0] for d in s['deps'])) < len(s['deps']): raise Invalid()
    for k, m in enumerate(case['mods']):
        ok(k, m['s'])
        if m['dir'] not in DIRS: raise Invalid()
    for st in case['steps']:
        if not st or N.get(st[0]) != len(st): raise Invalid()
        if st[0] == 'lib' and not 0 <= st[1] < len(LIBS) or st[0] == 'cd' and not 0 <= st[1] < len(DIRS) or st[0] == 'gone' and (st[1][:2] not in (':n', '"n', '"a', ':/') or st[1] not in (':never/heard-of', '"never-written"', '"a/nope"', ':/sim/nope')): raise Invalid()
        if st[0] not in ('lib', 'cd', 'gone') and not 0 <= st[1] < n: raise Invalid()
        if st[0] == 'write': ok(st[1], st[2])
        elif any(isinstance(v, int) and v < 0 for v in st[1:]): raise Invalid()
    if any(f['err'] <= 0 or f['op'] not in FAULTS for x in case['runs'] for f in x['f']): raise Invalid()

def execute(case, env, o):
    valid(case)
    w = env.world(case.get('asan', False))
    base = None
    for st in case['steps']:
        if st[0] in ('imp', 'as', 'same'):
            m = st[2] % 7
            if m in (2,): o.probe('absolute')
            if m in (1, 4, 6): o.probe('dotted')
            if m == 3: o.probe('keyword')
    if case['script']: o.probe('script')
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl = []
        if x:
            for l in x['env']: s.add(l)
            fl = nj.place(x['f'], nj.calls(base))
            for l in fl: s.add(l)
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], lo, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        if x and 'gc' in x and r.head['gcs']: o.probe('collected')
        # which files were opened in which step, and whether reading them failed
        opens, pend = {}, False
        for step, l, d in nj.timeline(r):
            if l.startswith('FAULT open'): pend = True
            elif l.startswith('open '):
                opens.setdefault(step, []).append([l.split(' ')[1], pend]); pend = False
            elif l.startswith('FAULT read') and opens.get(step): opens[step][-1][1] = True
        if case['script'] and any(b for p, b in opens.get(0, []) if p == '/sim/a/main.nuj'):
            if r.kind != 'exit' or r.status != 1 or nj.results(r): o.violation('ending', '%sended by %s %s though the script could not be read' % (what, r.kind, r.status)); return
            continue
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, r.out[-300:])); return
        if base is None:
            base = r
            lo = next((int(l.split(' ')[2]) for l in r.log.split('\n') if l.startswith('out ')), 0)
        res = nj.results(r)
        # the load marks printed in each step
        marks, at = {}, 0
        j = 0
        for l in r.out.split(b'\n'):
            if l.startswith(b'@'): marks.setdefault(j, []).append(int(l[1:]))
            elif l.startswith(b'=') and l[1:].split(b' ')[0].isdigit(): j = int(l[1:].split(b' ')[0]) + 1
        m = Model(case, None)
        for j, st in enumerate(case['steps']):
            m.opens = opens.get(j, []); m.loads = []
            faulted = any(b for p, b in m.opens)
            v = res.get(j)
            e = '%sstep %d %s ' % (what, j, expr(case, st)[:200])
            if st[0] == 'write' and faulted:
                # the file could not be written: it is as before or gone; either way it said so
                if v not in ('#f', '#t', ':gone'): o.violation('write', e + 'gave %s' % v); return
                if v == '#f': continue
            exp = m.step(st)
            if marks.get(j, []) != m.loads: o.violation('loads', '%sevaluated modules %s instead of %s (%s)' % (e, marks.get(j, []), m.loads, v)); return
            if exp is None:
                if v is None or not v.startswith('(:exc '): o.violation('error', e + 'gave %s instead of an error' % v); return
            elif v != exp: o.violation('value', e + 'gave %s instead of %s' % (v, exp)); return
        for f in m.fl: o.probe(f)
        if m.fl & {'cached', 'retried', 'missing', 'broken', 'threw', 'read-failed'}: o.nontrivial = True
    o.key = repr((case['mods'], case['steps'], case['runs']))
