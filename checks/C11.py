"""C11: a serialized value loads back as an equal value, in this or a later process."""
import re, nj, gcsched
from nj import E
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C11'
LEVEL = 'exploration'
RULE = ('case = a seeded graph of 1-25 nodes of all types with shared and cyclic references, a list of changes and the runs: it is serialized, loaded back, serialized again from the loaded value, and '
        'written to a file that a second process loads; types, contents, identity, mutability and the effect of every change along every path are compared with a model of the graph, under seeded '
        'collections during and after serializing and loading, portioned file transfers and failing allocations; non-trivial when collections ran or an allocation failed; distinct by graph and schedule')
ASSUMPTIONS = ['images are loaded by the runtime that wrote them, as written', 'images up to 16 MB', 'no file handles other than the standard ones', 'native methods sharing a name are not serialized as values']
NOTE = 'Sampled graphs, changes and schedules against a model of the value graph; the model itself is compared with the unserialized value in every run.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['cycle', 'shared', 'function', 'environment', 'view', 'second-process', 'collection-while-loading', 'alloc-failed', 'changed', 'big', 'many', 'every-native']

def budget(tier): return 400 if tier == 'quick' else 16000

INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 8388607, 8388608, -8388608, 16777214, 16777215, 16777216, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 2**62, 2**63 - 1, -2**63, -2**63 + 1]
FLOATS = ['0.5', '-1.25', '3.14159', '0.1', '-0.001', '12345.678', '1000000.0']
VIEWS = {'u8': 1, 's8': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 's64': 8}
KINDS = ['int', 'float', 'bool', 'nil', 'string', 'symbol', 'keyword', 'buffer', 'ibuffer', 'view', 'pair', 'list', 'array', 'tree', 'itree', 'cell', 'env', 'fn', 'native', 'type']
W = [3, 2, 1, 1, 4, 2, 2, 3, 2, 3, 4, 4, 6, 5, 1, 1, 1, 1, 1, 1]
FNS = [('(fn (a) (list a "lit" \'(1 2)))', '(5 "lit" (1 2))'), ('(fn (a &b) a)', None), ('(defn fact (n) (if (< n 2) 1 (* n (fact (- n 1)))))', '120'),
       ('(fn (n) (let ((s 0)) (dotimes (i n) (set! s (+ s i))) s))', '10'), ('(fn (n) (try (fn (e) (list :caught (car e))) (throw (list :x n))))', '(:caught :x)'),
       ('(fn (n) (map (list 1 2) (fn (x) (+ x n))))', '(6 7)'), ('(let ((k 9)) (fn (n) (+ k n)))', '14'), ('(fn (n) { :a n })', '#@(a: 5)'), ('(fn (n) (cond ((= n 5) \'five) (:otherwise :other)))', 'five')]
DOC = re.compile(r'\((fn|defn [a-z]+) \([a-z&]*( &b)?\)')
NATIVES = ['popcount', 'array/new', 'abs', 'tree/new', '+', 'bit-and']
TYPES = ['1', '"x"', "'a", ':k', '##(1)', 'car', '#nil']

NALL = [n for n in '''* + - / abs add/int and apply array/new atan2 bit-and bit-not bit-or bit-shift-left bit-shift-right bit-xor buffer->string buffer/allocate buffer/copy bytecode-eval*
 cbrt cd ceil cos current-closure current-lambda cwd def div/int do environment* exit file/close* file/flush* file/read* file/seek* file/tell* file/write* float floor fn* garbage-collection-runs if
 image/deserialize image/serialize inc/int int let* list ls macro* mkdir mod/int mul/int mutable-eval* nreverse or popcount popen pow quote read ref rem resolves? return rm rmdir round set! sin
 socket/connect sqrt sub/int tan throw time time/milliseconds tree/new try val->id while'''.split()]
TALL = 'Nil Symbol Keyword Int Float Bool Pair Array Tree Lambda Macro Environment String Buffer BufferView FileHandle Any'.split()
# many values in one image, behind a string of every length in a range: I is the number of the value, P the length
ITEMS = {
    'int8': '(- I 100)', 'int24': '(+ 1000 (* I 77))', 'neg24': '(- -1000 (* I 77))', 'int64': '(+ (bit-shift-left 1 50) I)', 'neg64': '(- I (bit-shift-left 1 50))', 'float': '(+ I 0.25)', 'true': '#t', 'false': '#f', 'nil': '#nil',
    'string': '(cat "s" I)', 'empty-string': '(buffer->string (buffer/allocate 0))', 'long-string': '(:cut S 0 (- 300 I))', 'symbol': '(:symbol (cat "sy" I))', 'keyword': '(:keyword (cat "kw" (* I I)))', 'buffer': '(buffer/allocate I)', 'ibuffer': '#m010203',
    'view': '(:u16 (buffer/allocate (+ 4 (* 2 I))))', 'iview': '(:s8 (buffer/allocate (+ 1 I)) #t)', 'sharedview': '(:u8 B)', 'pair': '(cons I P)', 'list': "(list I 'a \"b\" :c)", 'nested': '(list (list (list I)) (array/new I (array/new)))', 'array': '(array/new I 2.5 "q")',
    'empty-array': '(array/new)', 'tree': '{ :a I :b 2 :c (list I) }', 'empty-tree': '(tree/new)', 'shared': 'B', 'native': 'popcount', 'type': 'Array', 'bytecode': '(:code (fn () (list I "k")))'}
SAME = r'''(defn same? (a b)
  (def t (:type-name a))
  (and (= t (:type-name b))
       (cond ((= t :pair) (and (same? (car a) (car b)) (same? (cdr a) (cdr b))))
             ((= t :array) (and (= (:length a) (:length b)) (let ((r #t) (i 0)) (while (< i (:length a)) (when (not (same? (ref a i) (ref b i))) (set! r #f)) (set! i (+ i 1))) r)))
             ((= t :tree) (and (= (:length a) (:length b)) (same? (:keys a) (:keys b)) (same? (:values a) (:values b))))
             ((= t :buffer) (and (= (T (fn () (:immutable? a))) (T (fn () (:immutable? b)))) (= (string/write a) (string/write b))))
             ((= t :buffer-view) (and (= (:immutable? a) (:immutable? b)) (= (:length a) (:length b)) (= (string/write (:buffer a)) (string/write (:buffer b)))))
             ((= t :lambda) (same? (a) (b)))
             ((= t :bytecode-array) (same? (:array a) (:array b)))
             ((= t :nil) #t)
             (:otherwise (= a b)))))'''

def gen_bulk(R):
    k = R.randrange(4)
    if k == 0: items = [R.choice(sorted(ITEMS))] * R.choice([1, 2, 5, 20, 60])
    elif k == 1: a, b = R.choice(sorted(ITEMS)), R.choice(sorted(ITEMS)); items = [a, b] * R.choice([1, 2, 10, 30])
    else: items = [R.choice(sorted(ITEMS)) for _ in range(R.choice([1, 2, 3, 5, 10, 40]))]
    lo = R.choice([0, 0, 1, 100, 200, 230, 1000])
    b = {'lo': lo, 'n': R.choice([30, 64, 100]) if len(items) < 30 else 12, 'step': R.choice([1, 1, 1, 3]), 'items': items, 'in': R.choice(['array', 'list', 'tree']), 'names': R.random() < .3}
    r = {}
    if R.random() < .5: r['gc'] = gcsched.gen(R, 30)
    if R.random() < .4: r['env'] = nj.io_env(R)
    if R.random() < .5: r['fill'] = R.choice([0, 1, 0x55, 0xff])
    return {'bulk': b, 'run': r, 'asan': R.random() < .5}

def bulk_exprs(b):
    mk = {'array': '(array/new S0 %s)', 'list': '(list S0 %s)', 'tree': '{ :s S0 %s }'}[b['in']]
    its = ' '.join((':k%d ' % q if b['in'] == 'tree' else '') + '(let ((I %d)) %s)' % (q, ITEMS[k]) for q, k in enumerate(b['items']))
    mk = mk % its
    names = '(list %s)' % ' '.join(NALL + TALL) if b.get('names') else '(list popcount Int)'
    pre = nj.PRE + SAME + '(defn junk () (map (range 30) (fn (x) (list x (cat "j" x) (buffer/allocate 16) { :a x }))) #nil)'
    pre += '(def S (cat %s)) (def B (:clone #m0A0B0C0D))' % ' '.join('"0123456789abcdefghij"' for _ in range(16))
    pre += '(def ZS (:clone (buffer/allocate 4000))) (defn mk (P) (def S0 (buffer->string ZS P)) %s)' % mk
    return [pre, '(defn once (P) (def V (mk P)) (def L (image/deserialize (image/serialize V))) (cond ((not (same? V (mk P))) (list :model P)) ((not (same? L (mk P))) (list :value P)) ((not (same? (image/deserialize (image/serialize L)) (mk P))) (list :again P))))'
            '(defn all () (let ((P %d) (bad #nil)) (while (and (not bad) (< P %d)) (set! bad (once P)) (set! P (+ P %d))) bad))' % (b['lo'], b['lo'] + b['n'] * b['step'], b['step']),
            '(R 0 all) (def names %s) (def nl (image/deserialize (image/serialize names))) (R 1 (fn () (same? names nl)))' % names,
            '(spit "img" (image/serialize (list (mk %d) names (mk %d))))' % (b['lo'], b['lo'] + 1)], \
           [pre, '(def L (image/deserialize (slurp/buffer "img"))) (junk) (R 0 (fn () (same? L (list (mk %d) %s (mk %d)))))' % (b['lo'], names, b['lo'] + 1)]

def execute_bulk(case, env, o):
    b = case['bulk']
    if not b['items'] or any(k not in ITEMS for k in b['items']) or b['n'] < 1 or b['step'] < 1 or b['lo'] < 0 or b['lo'] + b['n'] * b['step'] > 3900: raise Invalid()
    xa, xb = bulk_exprs(b)
    w = env.world(case.get('asan', False))
    o.probe('many')
    if b.get('names'): o.probe('every-native')
    img, x = None, case['run']
    n0 = {}
    for k, (sched, two) in enumerate([(False, False), (False, True)] + ([(True, False), (True, True)] if x.get('gc') else [])):
        s = nj.exprs(*(xb if two else xa)).add('loglevel 2')
        for l in x.get('env', []): s.add(l)
        if 'fill' in x: s.add('fill %d' % x['fill'])
        if two: s.file('/sim/img', img)
        if sched:
            for l in gcsched.lines(x['gc'], *n0[two]): s.add(l)
        r = o.see(w.run(s))
        what = '%s process%s: ' % ('second' if two else 'first', ', with collections' if sched else '')
        if always_bad(r, o, what): return
        outs = [l.split(' ') for l in r.log.split('\n') if l.startswith('out ')]
        if not sched: n0[two] = (max(0, int(outs[0][2]) - 3000), int(outs[-1][2])) if outs else (0, 1)
        if sched: o.nontrivial = True
        want = {0: '#t'} if two else {0: '#nil', 1: '#t'}
        got = nj.results(r)
        if got.get(0, '').startswith('(:model'):
            import os
            if os.environ.get('SIM_DEBUG'): print('MODEL', got)
            raise Invalid()
        if r.kind != 'exit' or r.status or got != want:
            o.violation('value', '%sit printed %r, not %r: %r' % (what, got, want, (r.out[-300:] + r.err[-200:]))); return
        if not two:
            img = r.files().get('/sim/img')
            if img is None: o.violation('value', what + 'no image was written'); return
    o.key = repr((b, x))

def gen(R, i, tier):
    if R.random() < .15: return gen_bulk(R)
    n = R.choice([1, 2, 3, 5, 8, 12, 18, 25])
    nodes = []
    big = R.random() < .06
    for j in range(n):
        k = R.choices(KINDS, W)[0]
        ref = lambda: R.randrange(n)
        back = lambda: R.randrange(j) if j else None
        if k == 'int': d = {'v': R.choice(INTS) if R.random() < .7 else R.randrange(-2**40, 2**40)}
        elif k == 'float': d = {'v': R.choice(FLOATS)}
        elif k == 'bool': d = {'v': R.random() < .5}
        elif k == 'string': d = {'v': nj.data(R, R.choice([0, 1, 2, 5, 30, 255, 256, 300, 4000] + ([70000] if big else []))).hex()}
        elif k in ('symbol', 'keyword'): d = {'v': R.choice(['a', 'b', 'sym', 'car', 'x' * 60, 'with-dash', 'q?', 'né'])}
        elif k in ('buffer', 'ibuffer'): d = {'v': nj.data(R, R.choice([0, 1, 2, 8, 16, 33, 255, 256, 1000])).hex()}
        elif k == 'view':
            c = [q for q in range(j) if nodes[q]['k'] == 'buffer' and nodes[q]['v']]
            if not c: continue_k = 'nil'; d = {}; k = 'nil'
            else: d = {'b': R.choice(c), 'm': R.choice(sorted(VIEWS)), 'im': R.random() < .3}
        elif k == 'pair': d = {'a': back(), 'd': back()}
        elif k == 'list': d = {'v': [back() for _ in range(R.randrange(1, 6))]}
        elif k == 'array': d = {'v': [ref() if R.random() < .8 else None for _ in range(R.choice([0, 1, 2, 3, 5, 9] + ([40, 300] if big else [])))]}
        elif k == 'tree': d = {'v': [['k%d' % q, ref() if R.random() < .8 else None] for q in R.sample(range(60 if big else 14), R.choice([0, 1, 2, 3, 7] + ([40] if big else [])))]}
        elif k == 'itree': d = {'v': [['k%d' % q, R.randrange(100)] for q in R.sample(range(9), R.randrange(1, 5))]}
        elif k == 'cell': d = {'v': R.randrange(100)}
        elif k == 'env': d = {'v': R.randrange(100)}
        elif k == 'fn': d = {'v': R.randrange(len(FNS)), 'doc': R.choice(['', '', 'doc', 'what it %d does' % j]), 'note': R.choice([None, None, 7, 300000 + j])}
        elif k == 'native': d = {'v': R.choice(NATIVES)}
        elif k == 'type': d = {'v': R.choice(TYPES)}
        else: d = {}
        d['k'] = k
        nodes.append(d)
    muts = [[R.randrange(1000000), R.randrange(1000000), R.randrange(100, 200)] for _ in range(R.choice([0, 1, 2, 4, 8]))]
    root = R.randrange(n)
    if R.random() < .7:
        c = [q for q in range(n) if nodes[q]['k'] in ('array', 'tree', 'list', 'pair')]
        if c: root = R.choice(c)
    runs = []
    for _ in range(2):
        r = {'a': {}, 'b': {}}
        for p in 'ab':
            if R.random() < .7: r[p]['gc'] = gcsched.gen(R, 30)
            if R.random() < .3: r[p]['oom'] = [R.randrange(1000000) for _ in range(R.choice([1, 1, 3]))]
            if R.random() < .4: r[p]['env'] = nj.io_env(R)
            if R.random() < .5: r[p]['fill'] = R.choice([0, 1, 0x55, 0xff])
        runs.append(r)
    return {'nodes': nodes, 'root': root, 'muts': muts, 'runs': runs, 'asan': R.random() < .12}

# ---- the model ---------------------------------------------------------------
class M:
    """The graph as it should be; refs are indices or None for nil."""
    def __init__(self, case):
        self.nodes = [dict(d) for d in case['nodes']]
        self.root = case['root']
        n = len(self.nodes)
        for j, d in enumerate(self.nodes):
            k = d['k']
            if k not in KINDS: raise Invalid()
            for f in ('a', 'd'):
                if f in d and d[f] is not None and not 0 <= d[f] < j: raise Invalid()
            if k == 'list':
                if not d['v'] or any(x is not None and not 0 <= x < j for x in d['v']): raise Invalid()
                d['v'] = list(d['v'])
            if k == 'array':
                if any(x is not None and not 0 <= x < n for x in d['v']): raise Invalid()
                d['v'] = list(d['v'])
            if k == 'tree':
                if any(x[1] is not None and not 0 <= x[1] < n for x in d['v']): raise Invalid()
                d['v'] = dict((a, b) for a, b in d['v'])
            if k == 'view' and not (0 <= d['b'] < j and self.nodes[d['b']]['k'] == 'buffer' and self.nodes[d['b']]['v']): raise Invalid()
            if k in ('buffer', 'ibuffer', 'string'): d['v'] = bytearray.fromhex(d['v'])
            if k == 'itree' and not d['v']: raise Invalid()
        if not 0 <= self.root < n: raise Invalid()
    def val(self, x):
        """What a reference stands for: a node or (int marker)."""
        return x
    def children(self, j):
        d = self.nodes[j]; k = d['k']
        if k == 'pair': return [('(car %s)', d['a']), ('(cdr %s)', d['d'])]
        if k == 'list': return [('(car %s)' if q == 0 else '(car (cdr %s))' if q == 1 else '(list/ref* %%s %d)' % q, x) for q, x in enumerate(d['v'])]
        if k == 'array': return [('(ref %%s %d)' % q, x) for q, x in enumerate(d['v'])][:40]
        if k == 'tree': return [('(ref %%s :%s)' % a, b) for a, b in sorted(d['v'].items())]
        if k == 'view': return [('(:buffer %s)', d['b'])]
        return []
    def paths(self, limit=45):
        """[(path expression, node or None or ('mark', v))], breadth first, every node at least once."""
        out, seen, queue = [], {}, [('%s', self.root, 0)]
        while queue and len(out) < 400:
            p, x, dep = queue.pop(0)
            first = isinstance(x, int) and x not in seen
            if isinstance(x, int): seen[x] = seen.get(x, 0) + 1
            if first or len(out) < limit: out.append((p, x))
            if isinstance(x, int) and (first or (dep < 4 and seen[x] < 3)):
                for f, y in self.children(x):
                    queue.append((f % p if f.count('%s') else f, y, dep + 1))
        return out
    def facts(self, p, x):
        """[(expression, expected)] about what is found at path p; expected None: only that there is no error."""
        if x is None: return [('(nil? %s)' % p, '#t')]
        if isinstance(x, tuple): return [('(atom %s)' % p, str(x[1]))]
        d = self.nodes[x]; k = d['k']
        ty = lambda t: ('(:type-name %s)' % p, ':' + t)
        if k == 'int': return [('(atom %s)' % p, str(d['v']))]
        if k == 'float': return [('(list (:type-name %s) (= %s %s))' % (p, p, d['v']), '(:float #t)')]
        if k == 'bool': return [('(atom %s)' % p, '#t' if d['v'] else '#f')]
        if k == 'nil': return [('(nil? %s)' % p, '#t')]
        if k == 'string': return [('(atom %s)' % p, ('string', bytes(d['v'])))]
        if k == 'symbol': return [("(list (:type-name %s) (= %s '%s))" % (p, p, d['v']), '(:symbol #t)')]
        if k == 'keyword': return [("(list (:type-name %s) (= %s :%s))" % (p, p, d['v']), '(:keyword #t)')]
        if k in ('buffer', 'ibuffer'): return [('(atom %s)' % p, ('buffer', bytes(d['v']))), ('(:immutable? %s)' % p, '#f' if k == 'buffer' else '#t')]
        if k == 'view':
            b = self.nodes[d['b']]['v']; w = VIEWS[d['m']]
            L = [ty('buffer-view'), ('(:immutable? %s)' % p, '#t' if d['im'] else '#f'), ('(:length %s)' % p, str(len(b) // w))]
            if len(b) >= w:
                i = len(b) // w - 1
                L.append(('(ref %s %d)' % (p, i), str(int.from_bytes(b[i * w:i * w + w], 'little', signed=d['m'][0] == 's'))))
            return L
        if k == 'pair': return [('(:type-name %s)' % p, ':pair')]
        if k == 'list': return [('(list (:type-name %s) (:length %s))' % (p, p), '(:pair %d)' % len(d['v']))]
        if k == 'array': return [('(list (:type-name %s) (:length %s))' % (p, p), '(:array %d)' % len(d['v']))]
        if k == 'tree': return [('(list (:type-name %s) (:length %s) (:has? %s :k3) (:has? %s :zz))' % (p, p, p, p), '(:tree %d %s #f)' % (len(d['v']), '#t' if 'k3' in d['v'] else '#f'))]
        if k == 'itree': return [('(list (atom (:length %s)) (atom (T (fn () (set! %s :zz 1) 1))))' % (p, p), '(%d :pair)' % len(d['v']))] + [('(atom (ref %s :%s))' % (p, a), str(b)) for a, b in d['v']]
        if k == 'cell': return [('(list ((car %s)) (:type-name (car %s)))' % (p, p), '(%d :lambda)' % d['v'])]
        if k == 'env': return [("(list ((ref %s :get)) (ref %s :a) (eval-in %s '(mm 3)) (:type-name %s))" % (p, p, p, p), '(%d %d (3 %d) :environment)' % (d['v'], d['v'], d['v']))]
        if k == 'fn': return [('(list (:type-name %s) (= (:meta %s :documentation) %s) (:meta %s :note))' % (p, p, '"%s"' % d['doc'] if d.get('doc') else '#nil', p), '(:lambda #t %s)' % ('#nil' if d.get('note') is None else d['note']))] + ([('(%s 5)' % p, FNS[d['v']][1])] if FNS[d['v']][1] else [])
        if k == 'native': return [('(= %s %s)' % (p, d['v']), '#t')]
        if k == 'type': return [('(= %s (:type-of %s))' % (p, d['v']), '#t')]
    def build(self):
        L = []
        for j, d in enumerate(self.nodes):
            k = d['k']; r = lambda x: '#nil' if x is None else 'n%d' % x
            if k == 'int': e = str(d['v']) if abs(d['v']) < 2**50 else '(+ (bit-shift-left %d 32) %d)' % (d['v'] >> 32, d['v'] & 0xffffffff)
            elif k == 'float': e = d['v']
            elif k == 'bool': e = '#t' if d['v'] else '#f'
            elif k == 'nil': e = '#nil'
            elif k == 'string': e = nj.bstr(bytes(d['v'])) if d['v'] else '""'
            elif k == 'symbol': e = "'" + d['v']
            elif k == 'keyword': e = ':' + d['v']
            elif k == 'buffer': e = '(:clone %s)' % nj.hx(d['v']) if d['v'] else '(buffer/allocate 0)'
            elif k == 'ibuffer': e = nj.hx(d['v']) if d['v'] else '(:clone (buffer/allocate 0) #t)'
            elif k == 'view': e = '(:%s n%d%s)' % (d['m'], d['b'], ' #t' if d['im'] else '')
            elif k == 'pair': e = '(cons %s %s)' % (r(d['a']), r(d['d']))
            elif k == 'list': e = '(list %s)' % ' '.join(r(x) for x in d['v'])
            elif k == 'array': e = '(:alloc Array %d)' % len(d['v'])
            elif k == 'tree': e = '(tree/new)'
            elif k == 'itree': e = '#@(%s)' % ' '.join('%s: %d' % (a, b) for a, b in d['v'])
            elif k == 'cell': e = '(let ((n %d)) (list (fn () n) (fn (v) (set! n v))))' % d['v']
            elif k == 'env': e = "(environment* (def a %d) (defn get () a) (defn put (v) (set! a v)) (defmacro mm (x) (list 'list x 'a)))" % d['v']
            elif k == 'fn': e = DOC.sub(lambda z: z.group(0) + (' "%s"' % d['doc'] if d.get('doc') else ''), FNS[d['v']][0])
            elif k == 'native': e = d['v']
            elif k == 'type': e = '(:type-of %s)' % d['v']
            L.append('(def n%d %s)' % (j, e))
            if k == 'fn' and d.get('note') is not None: L.append('(:meta! n%d :note %d)' % (j, d['note']))
        for j, d in enumerate(self.nodes):
            if d['k'] == 'array': L += ['(set! n%d %d n%d)' % (j, q, x) for q, x in enumerate(d['v']) if x is not None]
            if d['k'] == 'tree': L += ['(set! n%d :%s %s)' % (j, a, '#nil' if b is None else 'n%d' % b) for a, b in d['v'].items()]
        L.append('(def root n%d)' % self.root)
        return L
    def change(self, where, what, v, root):
        """Changes the model; the expression doing the same through one path."""
        ps = [(p, x) for p, x in self.paths() if isinstance(x, int) and self.nodes[x]['k'] in ('array', 'tree', 'buffer', 'view', 'cell', 'env')]
        ps = [(p, x) for p, x in ps if not (self.nodes[x]['k'] == 'array' and not self.nodes[x]['v'])]
        if not ps: return None
        p, x = ps[where * len(ps) // 1000000]
        d = self.nodes[x]; k = d['k']; p = p.replace('%s', root)
        if k == 'array':
            q = what * len(d['v']) // 1000000; d['v'][q] = ('mark', v); return '(set! %s %d %d)' % (p, q, v)
        if k == 'tree':
            q = ['k1', 'k2', 'k3', 'k9', 'new'][what * 5 // 1000000]; d['v'][q] = ('mark', v); return '(set! %s :%s %d)' % (p, q, v)
        if k == 'buffer' and not d['v']: d['v'] += bytes(v % 100); return '(:length! %s %d)' % (p, v % 100)
        if k == 'buffer':
            q = what * len(d['v']) // 1000000; d['v'][q] = v; return '(set! (:u8 %s) %d %d)' % (p, q, v)
        if k == 'view':
            b = self.nodes[d['b']]['v']; w = VIEWS[d['m']]
            if d['im']: return '(T (fn () (set! %s 0 1)))' % p
            if len(b) < w: return None
            q = what * (len(b) // w) // 1000000
            b[q * w:q * w + w] = (v % 100).to_bytes(w, 'little'); return '(set! %s %d %d)' % (p, q, v % 100)
        if k == 'cell': d['v'] = v; return '((car (cdr %s)) %d)' % (p, v)
        if k == 'env': d['v'] = v; return '((ref %s :put) %d)' % (p, v)

class Script:
    def __init__(self): self.exp, self.L = [], []
    def do(self, *xs): self.L += list(xs)
    def fact(self, e, want):
        self.L.append('(%s %d (fn () %s))' % ('RB' if isinstance(want, tuple) else 'R', len(self.exp), e)); self.exp.append((e, want))
    def facts(self, m, root):
        ps = m.paths()
        for p, x in ps:
            for e, want in m.facts(p.replace('%s', root), x): self.fact(e, want)
        # identity: same node, same object; different nodes of mutable kinds, different objects
        refs = [(p.replace('%s', root), x) for p, x in ps if isinstance(x, int) and m.nodes[x]['k'] in ('array', 'tree', 'view', 'env', 'buffer', 'fn')]
        first = {}
        for p, x in refs:
            if x in first: self.fact('(= (val->id %s) (val->id %s))' % (first[x], p), '#t')
            else:
                for y, q in list(first.items())[-3:]:
                    if m.nodes[y]['k'] == m.nodes[x]['k'] and m.nodes[x]['k'] not in ('fn',): self.fact('(= (val->id %s) (val->id %s))' % (q, p), '#f')
                first[x] = p
    def chunks(self, head):
        """The expressions to run; the first is on its own so that windows can start behind it."""
        out = [nj.PRE + '(defn list/ref* (l n) (if (zero? n) (car l) (list/ref* (cdr l) (- n 1))))' + '(defn atom (v) (def t (:type-name v)) (if (or (= t :array) (= t :pair) (= t :tree) (= t :lambda) (= t :environment)) t v))' + '(defn junk () (map (range 60) (fn (x) (list x (cat "j" x) (buffer/allocate 16) { :a x } (:alloc Array 3) (:u8 (buffer/allocate 2))))) #nil)']
        out += head
        for i in range(0, len(self.L), 12): out.append(' '.join(self.L[i:i + 12]))
        return out

def script_a(case):
    m = M(case)
    sc = Script()
    b = m.build()
    head = [' '.join(b[i:i + 12]) for i in range(0, len(b), 12)]
    sc.facts(m, 'root')
    nbase = len(sc.exp)
    sc.do('(def img (image/serialize root))', '(def ok (spit "img" img))', '(def L (image/deserialize img))', '(set! img #nil)', '(junk)')
    sc.fact('ok', '#t')
    sc.facts(m, 'L')
    sc.do('(def L2 (image/deserialize (image/serialize L)))', '(junk)')
    m2 = M(case)
    for w, x, v in case['muts']:
        e = m2.change(w, x, v, 'L')
        if e: sc.do(e)
    sc.facts(m2, 'L')
    sc.facts(m, 'root')
    sc.facts(m, 'L2')
    # changing the original must not reach the copies, either
    m3 = M(case)
    for w, x, v in reversed(case['muts']):
        e = m3.change(w, x, v + 1, 'root')
        if e: sc.do(e)
    sc.facts(m2, 'L')
    return sc, head, nbase

def script_b(case):
    m = M(case)
    sc = Script()
    sc.do('(def L (image/deserialize (slurp/buffer "img")))', '(junk)')
    sc.facts(m, 'L')
    sc.do('(def L2 (image/deserialize (image/serialize L)))')
    for w, x, v in case['muts']:
        e = m.change(w, x, v, 'L')
        if e: sc.do(e)
    sc.facts(m, 'L')
    sc.facts(M(case), 'L2')
    return sc, []

def execute(case, env, o):
    if 'bulk' in case: return execute_bulk(case, env, o)
    if not case['nodes'] or len(case['nodes']) > 40: raise Invalid()
    kinds = set(d['k'] for d in case['nodes'])
    A, head, nbase = script_a(case)
    B, _ = script_b(case)
    m = M(case)
    cnt = {}
    for p, x in m.paths():
        if isinstance(x, int): cnt[x] = cnt.get(x, 0) + 1
    reach = set(m.nodes[x]['k'] for x in cnt)
    if any(c > 1 for c in cnt.values()): o.probe('shared')
    def cyc(x, seen):
        if not isinstance(x, int): return False
        if x in seen: return True
        return any(cyc(y, seen | {x}) for f, y in m.children(x)[:6])
    if len(cnt) < 14 and cyc(m.root, frozenset()): o.probe('cycle')
    if 'fn' in reach or 'cell' in reach: o.probe('function')
    if 'env' in reach: o.probe('environment')
    if 'view' in reach: o.probe('view')
    if len(m.paths()) > 44: o.probe('big')
    if case['muts']: o.probe('changed')
    w = env.world(case.get('asan', False))
    img0, base = None, {}
    def one(which, sc, xs, x, k):
        nonlocal img0
        s = nj.exprs(*xs).add('loglevel 2')
        for l in x.get('env', []): s.add(l)
        if 'fill' in x: s.add('fill %d' % x['fill'])
        if which == 'b': s.file('/sim/img', img0)
        b = base.get(which)
        fl = []
        if b is not None:
            outs = [l.split(' ') for l in b.log.split('\n') if l.startswith('out ')]
            g0 = int(outs[min(nbase, len(outs) - 1)][2]) if which == 'a' and outs else 0
            if which == 'b' and outs: g0 = max(0, int(outs[0][2]) - 400)
            g1 = int(outs[-1][2]) if outs else 1
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], g0, max(g1, g0 + 1)): s.add(l)
            if x.get('oom'):
                m0 = int(outs[nbase][3]) - 300 if which == 'a' and len(outs) > nbase else int(outs[0][3]) - 300 if outs else 0
                m1 = int(outs[-1][3]) if outs else 1
                # most of it around serializing and loading
                for f in x['oom']: fl.append('fault malloc %d 12' % (max(0, m0) + (m1 - max(0, m0)) * f // 1000000))
                for l in fl: s.add(l)
        r = o.see(w.run(s))
        if b is None: base[which] = r
        what = 'run %d, %s process%s: ' % (k, 'first' if which == 'a' else 'second', ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return None
        oom = 'FAULT malloc' in r.log
        if oom: o.probe('alloc-failed'); o.nontrivial = True
        if r.head['gcs'] > (b.head['gcs'] if b is not None else 0): o.nontrivial = True; o.probe('collection-while-loading')
        if r.kind != 'exit' or (r.status and not oom): o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, (r.out[-300:] + r.err[-200:]))); return None
        res = nj.results(r)
        for j, (e, want) in enumerate(sc.exp):
            got = res.get(j)
            if oom:
                if got is None or (isinstance(got, str) and got.startswith('(:exc')): continue
                if r.out and j >= nbase: break          # a change may have failed
            if got != want:
                if which == 'a' and j < nbase and b is None:
                    import os
                    if os.environ.get('SIM_DEBUG'): print('MODEL', e, '->', short(got), 'not', short(want))
                    raise Invalid()
                o.violation('value', '%s%s gave %s instead of %s' % (what, e, short(got), short(want))); return None
        return r
    xa, xb = A.chunks(head), B.chunks([])
    for k, x in enumerate([{'a': {}, 'b': {}}] + case['runs']):
        r = one('a', A, xa, x['a'], k)
        if r is None: return
        f = r.files().get('/sim/img')
        if k == 0:
            img0 = f
            if img0 is None: o.violation('value', 'no image was written'); return
        elif f is not None and 'FAULT' not in r.log and not kinds & {'fn', 'cell', 'env'}:
            # the order of tree entries depends on symbol addresses, which collections may change
            if len(f) != len(img0) or (f != img0 and not x['a'].get('gc')): o.violation('image', 'run %d: serializing the same value wrote other bytes: %s' % (k, [(q, img0[q], f[q]) for q in range(min(len(f), len(img0))) if f[q] != img0[q]][:6])); return
        elif f is not None and 'FAULT' not in r.log: img0 = f
        r = one('b', B, xb, x['b'], k)
        if r is None: return
        o.probe('second-process')
    o.key = repr((case['nodes'], case['root'], case['muts'], case['runs']))

def short(v):
    if isinstance(v, tuple): return '%s of %d bytes %r' % (v[0], len(v[1]), v[1][:80])
    return v
