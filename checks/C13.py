"""C13: equal names are the same symbol and different names never are."""
import nj, gcsched
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C13'
LEVEL = 'exploration'
RULE = ('case = a seeded history of up to 400 operations over 10-120 names (many sharing a hash slot) on symbols, keywords, variables, tree keys, methods and images, mixed with thousands of short-lived names, '
        'run under seeded collection schedules; every comparison, name and lookup is checked against a model that knows names only; non-trivial when a name was dropped by a collection and created again; distinct by history and schedule')
ASSUMPTIONS = ['names of 1 to 93 bytes other than NUL', 'fewer than about 16000 names in use at once']
NOTE = 'Sampled histories and schedules against a model in which a symbol is its name; longer names are a known finding.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['collision', 'churn', 'refill', 'collected', 'reread', 'gensym', 'image', 'method', 'variable', 'long-name', 'bulk']

def budget(tier): return 260 if tier == 'quick' else 12000

M = (1 << 64) - 1
def mix(h):
    h ^= h >> 23; h = h * 0x2127599bf4325c37 & M
    return h ^ h >> 47
def slot(b, n=16384):
    m = 0x880355f21e6d1965
    h = 0x5b0a159d9eac0381 ^ len(b) * m & M
    k = len(b) // 8 * 8
    for i in range(0, k, 8):
        h ^= mix(int.from_bytes(b[i:i + 8], 'little')); h = h * m & M
    if len(b) % 8:
        h ^= mix(int.from_bytes(b[k:], 'little')); h = h * m & M
    h = mix(h)
    return ((h - (h >> 32)) & 0xffffffff) % n

LOCAL = {}
def cluster(R):
    """Names whose slots lie next to each other."""
    if not LOCAL:
        for i in range(60000): LOCAL.setdefault(slot(b'c%d' % i) >> 2, []).append('c%d' % i)
        for L in (60, 93):
            for i in range(9000):
                nm = ('p' * 93 + '%05d' % i)[-L:]
                LOCAL.setdefault((L, slot(nm.encode()) >> 2), []).append(nm)
            LOCAL[L] = sorted(k for k, v in LOCAL.items() if isinstance(k, tuple) and k[0] == L and len(v) > 6)
        LOCAL['k'] = sorted(k for k, v in LOCAL.items() if isinstance(k, int) and k not in (60, 93) and len(v) > 18)
    L = R.choice([60, 93])
    if R.random() < .4: return LOCAL[R.choice(LOCAL[L])]
    return R.choice([LOCAL[R.choice(LOCAL['k'])], LOCAL[4095], LOCAL[0]])

PRE = nj.PRE + r'''
(def held (apply array/new (map (range 140) (fn (x) #nil))))
(def tr (tree/new)) (def en (environment*)) (def obj { :prototype* { :zz 1 } }) (def bulk #nil) (def gs #nil) (def code #nil)
(defn mk (how name)
  (case how
    (0 (:symbol name)) (1 (:keyword name)) (2 (car (read name))) (3 (car (read (cat ":" name)))) (4 (:symbol (:keyword name))) (5 (:keyword (:string (:symbol name))))
    (7 (:symbol (:cut (cat ".." name) 2)))
    (otherwise (throw :how))))
(defn mki (how name) (if (= how 6) (car (image/deserialize (image/serialize (list (:symbol name))))) (mk how name)))
(defn churn (from n) (let ((bad 0)) (dotimes (i n) (let ((s (cat "t" (+ from i)))) (when (not (= (:string (:symbol s)) s)) (inc! bad)))) bad))
(defn fill (from n) (set! bulk #nil) (dotimes (i n) (set! bulk (cons (cons (+ from i) (:symbol (cat "b" (+ from i)))) bulk))) (:length bulk))
(defn refill () (let ((bad 0)) (for-each bulk (fn (p) (when (or (not (= (cdr p) (:symbol (cat "b" (car p))))) (not (= (:string (cdr p)) (cat "b" (car p))))) (inc! bad)))) bad))
(defn gen-syms (n) (dotimes (i n) (set! gs (cons (gensym) gs))) (let ((t (tree/new)) (k 0)) (for-each gs (fn (s) (when (ref t (:keyword s)) (inc! k)) (set! t (:keyword s) 1))) k))
(defn op (o)
  (let ((a (ref o 1)) (b (ref o 2)) (c (ref o 3)))
    (case (car o)
      (:keep (set! held a (mki b c)) (:string (ref held a)))
      (:drop (set! held a #nil) #t)
      (:same (= (ref held a) (mki b c)))
      (:name (:string (ref held a)))
      (:eq (= (ref held a) (ref held b)))
      (:type (:type-name (ref held a)))
      (:put (set! tr (mki 1 c) a) a)
      (:get (ref tr (mki b c)))
      (:def (eval-in en (list 'def (mki b c) a)) a)
      (:var (T (fn () (eval-in en (list 'do 1 (mki b c))))))
      (:vars (set! code (eval-in en (list 'fn (list (:symbol c)) (list 'list (:symbol c) (list 'quote (:symbol c)))))) #t)
      (:call (let ((r (code a))) (list (car r) (= (cadr r) (:symbol c)))))
      (:setm (set! (ref obj :prototype*) (mki 1 c) (fn (self) a)) a)
      (:getm (T (fn () ((eval-in en (list 'fn (list 'o) (list (mki b c) 'o))) obj))))
      (:read (let ((l (car (read (cat "(" c " :" c " " c ")"))))) (list (= (car l) (caddr l)) (= (:symbol (cadr l)) (car l)) (= (car l) (ref held a)))))
      (:churn (churn a b))
      (:fill (fill a b))
      (:refill (refill))
      (:gensym (gen-syms a))
      (otherwise :bad-op))))
'''

def gen(R, i, tier):
    n = R.choice([10, 25, 60, 120])
    names = set()
    if R.random() < .8:
        for _ in range(R.choice([1, 2, 5])): c = cluster(R); names |= set(R.sample(c, min(9, len(c))))
    while len(names) < n:
        k = R.random()
        if k < .5: s = 'n%d' % R.randrange(10 ** R.randrange(1, 6))
        elif k < .6: s = R.choice('abcxyz+-*/<>=!?$%&') * R.choice([1, 2, 3, 7, 8, 9, 16, 17])
        elif k < .75: s = ''.join(R.choice('abcABC-_+*<>!?/') for _ in range(R.choice([1, 2, 3, 12, 40]))) + 'q'
        elif k < .9: s = (R.choice('pqr') * 90 + 'xyz')[-R.choice([93, 92, 91, 90, 64, 63]):]; s = s[:-2] + R.choice('abcdef') + R.choice('abcdef')
        else: s = R.choice(['né', 'ünï', 'λx', 'a✓b', '变量'])
        if not s[0].isalpha(): s = 'z' + s
        names.add(s)
    names = sorted(names)
    R.shuffle(names)
    ops, tn = [], 0
    for _ in range(R.choice([20, 60, 150, 400])):
        x, a, b = R.randrange(100), R.randrange(min(140, 3 * n)), R.randrange(len(names))
        if x < 24: ops.append(['keep', a, R.randrange(8), b])
        elif x < 38: ops.append(['drop', a])
        elif x < 52: ops.append(['same', a, R.randrange(8), b])
        elif x < 56: ops.append(['name', a])
        elif x < 62: ops.append(['eq', a, R.randrange(min(140, 3 * n))])
        elif x < 64: ops.append(['type', a])
        elif x < 70: ops.append(['put', R.randrange(1000), 1, b])
        elif x < 77: ops.append(['get', 0, R.choice([1, 3, 5]), b])
        elif x < 80: ops.append(['def', R.randrange(1000), R.choice([0, 2, 7]), b])
        elif x < 83: ops.append(['var', 0, R.choice([0, 2, 4]), b])
        elif x < 84: ops.append(['vars', 0, 0, b])
        elif x < 86: ops.append(['call', R.randrange(100), 0, b])
        elif x < 88: ops.append(['setm', R.randrange(1000), 1, b])
        elif x < 90: ops.append(['getm', 0, R.choice([1, 3]), b])
        elif x < 93: ops.append(['read', a, 0, b])
        elif x < 96: ops.append(['churn', tn, R.choice([10, 100, 400])]); tn += 400
        elif x < 97: ops.append(['fill', R.choice([0, 0, tn]), R.choice([10, 200, 1000])])
        elif x < 98: ops.append(['refill'])
        else: ops.append(['gensym', R.randrange(1, 6)])
    if R.random() < .12:
        # as many names as the table can take, several times over
        for q in range(R.choice([1, 2, 3])): ops.insert(R.randrange(len(ops)), ['churn', 100000 + 9000 * q, R.choice([4000, 9000])])
        if R.random() < .5:
            j = R.randrange(len(ops)); ops[j:j] = [['fill', 0, 9000], ['refill']]
    return {'names': names, 'ops': ops, 'gc': [gcsched.gen(R, 40) for _ in range(R.choice([1, 2]))], 'asan': R.random() < .1}

PLAIN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
def opx(case, o):
    L = [':' + o[0]]
    for x in o[1:3]: L.append(str(x))
    if len(o) > 3:
        while len(L) < 3: L.append('0')
        L.append(nj.bstr(case['names'][o[3]].encode()) if case['names'][o[3]].isascii() else '"' + case['names'][o[3]].encode().decode('latin-1') + '"')
    while len(L) < 4: L.append('0')
    return '(op (list %s))' % ' '.join(L)

def model(case):
    held, tr, env, obj, code, bulk, nogs = {}, {}, {}, {'zz': 1}, None, 0, 0
    res = []
    B = lambda b: '#t' if b else '#f'
    kind = lambda h: 'keyword' if h in (1, 3, 5) else 'symbol'
    q = lambda s: '"' + s.encode().decode('latin-1').replace('\\', '\\\\').replace('"', '\\"') + '"'
    for o in case['ops']:
        k = o[0]
        nm = case['names'][o[3]] if len(o) > 3 else None
        if k == 'keep': held[o[1]] = (kind(o[2]), nm); res.append(q(nm))
        elif k == 'drop': held.pop(o[1], None); res.append('#t')
        elif k == 'same': res.append(B(held.get(o[1]) == (kind(o[2]), nm)))
        elif k == 'name': res.append(q(held[o[1]][1]) if o[1] in held else None)
        elif k == 'eq': res.append(B(held.get(o[1]) == held.get(o[2])))
        elif k == 'type': res.append(':' + held[o[1]][0] if o[1] in held else None)
        elif k == 'put': tr[nm] = o[1]; res.append(str(o[1]))
        elif k == 'get': res.append(str(tr[nm]) if nm in tr else '#nil')
        elif k == 'def': env[nm] = o[1]; res.append(str(o[1]))
        elif k == 'var': res.append(str(env[nm]) if nm in env else None)
        elif k == 'vars': code = nm; res.append('#t')
        elif k == 'call': res.append('(%d %s)' % (o[1], B(code == nm)) if code else None)
        elif k == 'setm': obj[nm] = o[1]; res.append(str(o[1]))
        elif k == 'getm': res.append(str(obj[nm]) if nm in obj else None)
        elif k == 'read': res.append('(#t #t %s)' % B(held.get(o[1]) == ('symbol', nm)))
        elif k == 'churn': res.append('0')
        elif k == 'fill': bulk = o[2]; res.append(str(bulk))
        elif k == 'refill': res.append('0')
        elif k == 'gensym': res.append('0')
        else: raise Invalid()
    return res

def scen(case):
    s = nj.exprs(PRE, *['(R %d (fn () %s))' % (j, opx(case, o)) for j, o in enumerate(case['ops'])])
    return s.add('loglevel 2').add('maxsteps 300000000')

def execute(case, env, o):
    w = env.world(case.get('asan', False))
    N = {'keep': 4, 'drop': 2, 'same': 4, 'name': 2, 'eq': 3, 'type': 2, 'put': 4, 'get': 4, 'def': 4, 'var': 4, 'vars': 4, 'call': 4, 'setm': 4, 'getm': 4, 'read': 4, 'churn': 3, 'fill': 3, 'refill': 1, 'gensym': 2}
    if not case['ops'] or not case['gc'] or len(set(case['names'])) < len(case['names']): raise Invalid()
    for x in case['ops']:
        if not x or N.get(x[0]) != len(x) or any(not isinstance(v, int) for v in x[1:]) or len(x) > 3 and (not 0 <= x[3] < len(case['names']) or not 0 <= x[2] < 8): raise Invalid()
        if x[0] in ('def', 'var') and x[2] in (1, 3, 5) or x[0] in ('get', 'put', 'getm', 'setm') and x[2] not in (1, 3, 5): raise Invalid()
    if any(not n or not n[0].isalpha() or any(c in n for c in '. \n\t()[]{}"\';`,~@#|:') for n in case['names']): raise Invalid()
    exp = model(case)
    base = None
    for k, g in enumerate([None] + case['gc']):
        s = scen(case)
        if g:
            for l in gcsched.lines(g, lo, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'run %d: ' % k
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, r.out[-200:])); return
        got = nj.results(r)
        for j, op in enumerate(case['ops']):
            v = got.get(j)
            e = exp[j]
            if e is None or v == e: continue
            o.violation('identity', '%sstep %d %s gave %s instead of %s' % (what, j, opx(case, op), v and v[:300], e)); return
        if not base:
            base = r
            lo = next((int(l.split(' ')[2]) for l in r.log.split('\n') if l.startswith('out ')), 0)
    ks = {x[0] for x in case['ops']}
    if r.head['gcs']: o.nontrivial = True; o.probe('collected')
    for a, b in (('churn', 'churn'), ('refill', 'refill'), ('gensym', 'gensym'), ('getm', 'method'), ('var', 'variable'), ('read', 'reread'), ('fill', 'bulk')):
        if a in ks: o.probe(b)
    if any(x[0] in ('keep', 'same') and x[2] == 6 for x in case['ops']): o.probe('image')
    if any(len(n) > 89 for n in case['names']): o.probe('long-name')
    sl = sorted(slot(n.encode()) for n in case['names'])
    if any(a == b for a, b in zip(sl, sl[1:])): o.probe('collision')
    o.key = repr((case['ops'], case['names'], case['gc']))
