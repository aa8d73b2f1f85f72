"""C03: exceptions reach the innermost handler and leave the program state intact."""
import random
import nj, gcsched
from nj import E
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C03'
LEVEL = 'exploration'
RULE = ('case = 1-5 generated expressions over shared functions and closures in which values are thrown, runtime checks fail and file reads fail (by injected faults) under nested handlers in every kind of operand, '
        'call, loop and closure position, run without faults, with failing system calls and with collections; the log of effects and every result is compared with a reference interpreter; '
        'non-trivial when an exception was caught; distinct by program and faults')
ASSUMPTIONS = ['which system call failed is read from the simulator\'s log; everything else the reference interpreter decides by itself']
NOTE = 'Sampled programs against a reference interpreter of about 150 lines (in the check). Trusts that interpreter and the simulator.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['caught', 'uncaught', 'rethrown', 'from-handler', 'nested-catch', 'deep', 'runtime-check', 'system-failure', 'script', 'in-loop', 'collected', 'native-handler']

def budget(tier): return 1300 if tier == 'quick' else 40000

PRE = r'''
(def nil-v #nil)
(defn E (e) (let ((v (car e))) (cond ((int? v) v) ((string? v) v) ((keyword? v) (if (= (:cut (:string v) 0 3) "my-") v :err)) ((float? v) v) ((nil? v) :a-nil) ((bool? v) v) (:otherwise (let ((t (:type-name v))) (cond ((= t :tree) (ref v :err)) ((= t :array) (ref v 0)) ((= t :buffer) (ref v 1)) ((= t :buffer-view) (ref v 1)) ((= t :lambda) (v)) ((= t :native-function) (v 6)) ((= t :symbol) v) ((= t :environment) (ref v 'q)) (:otherwise :odd)))))))
(defn T (f) (try (fn (e) (list :exc (E e))) (f)))
(defn R (n f) (def v (string/write (T f))) (print (cat "=" n " " v "\n")))
(defn L (n) (print (cat "L " (string/write n) "\n")))
(defn sysread (k) (slurp (cat "f" k)) k)
(defn deep (n f) (if (zero? n) (f) (+ 0 (deep (- n 1) f))))
(defn tail (n f) (if (zero? n) (f) (tail (- n 1) f)))
(defn natv (v) (cond ((int? v) v) ((= :array (:type-name v)) (do (L (E (ref v 0))) 4)) ((string? v) 6) (:otherwise 999)))
(def Obj { :prototype* #nil :run (fn (self f) (f)) :two (fn (self a f b) (list a b) (f)) })
(defn sum (l) (def r 0) (doseq (x l r) (set! r (+ r x))))
'''
FAILS = ['(+ 1 "a")', '(ref ##(1 2) 9)', '(:nope 1)', '((cat "a") 1)', '(+ 1 unbound-thing)', '(set! unbound-thing 1)', '(rem 1 "x")', '(buffer/allocate -1)', '(:cut "abc" "x")', '(read "(a")', '(read "\\"a")',
         '(slurp 5)', '(ref "abc" 7)', '(eval-in (environment*) (car (read "(nope3 1)")))', '(map 5 (fn (x) x))', '(int "a")', '(eval-in 5 1)', '(image/deserialize #m00)', '(file/read* 5 #m00)', '(slurp "missing")',
         '(:keyword (+ 1 "a"))', '(bit-shift-left 1 "x")', '(:alloc Array -5)',
         # every native procedure refuses what it cannot work with
         '(popen 5)', '(popen)', '(cd 5)', '(cd)', '(rm 5)', '(rmdir :a)', '(mkdir 5)', '(file/stat 5)', '(file/open-output* 5)',
         '(file/open-output* "x" :odd)', '(file/open-output* "x" 5)', '(file/open-input* 5)', '(file/raw* 5)', '(socket/connect 5 1)', '(socket/connect "a" "b")', '(socket/connect "a" 65536)', '(socket/connect "a" -1)', '(file/read* 5)',
         '(file/write* 5)', '(file/close* "a")', '(file/tell* #nil)', '(file/seek* 1 2 3)', '(file/eof*? 1)', '(file/error*? 1)', '(file/bytes-available* 1)', '(file/flush* 1)', '(ref {:a 1} 5)',
         '(ref (array/new 1) :a)', '(ref 5 1)', '(set! 5 1 1)', '(let ((a (array/new 1))) (set! a 9 1))', '(let ((b (buffer/allocate 2))) (set! b 2 1))', '(buffer->string 5)', '(buffer/copy 1 2 3)', '(buffer/copy (buffer/allocate 1) "abc" 0)', '(:u8 5)',
         '(:length! (array/new) -1)', '(:length! (buffer/allocate 4) 2)', '(:length! (buffer/allocate 4) "a")', '(apply 5 (list 1))', '(:has? (array/new 1) :a)', '(pow 1 "a")', '(sqrt "a")', '(popcount "a")', '(abs "a")',
         '(bit-and 1.5 1)', '(div/int 1 0)', '(/ 1 0)', '(rem 1 0)', '(mod/int 1 0)', '(mutable-eval* 5)', '(tree/new 1)', '(read 5)', '(read ")")',
         '(read "1x")', '(image/deserialize #m4F756A490302)', '(image/deserialize #m4E766A490302)', '(image/deserialize #m4E756B490302)', '(image/deserialize #m4E756A4A0302)', '(read "#q")', '(read "\\"\\\\q\\"")', '(image/deserialize 5)', '(:symbol 5)', '(:keyword 5)', '(:index-of "a" 5)', '(:char-at "a" 5)', '(bit-not :a)',
         '(floor :a)', '(round "a")', '(:meta! (fn (x) x) 5 5)', '(:code 5)', '(:bytecode-array (array/new :a) (array/new))', '(buffer/copy (buffer/allocate 4) "ab" -1)', '(buffer/copy (buffer/allocate 4) "ab" "x")', '(buffer/copy (buffer/allocate 4) "ab" 0 -1)', '(buffer/copy (buffer/allocate 4) "ab" 0 9)',
         '(buffer/copy #m0102 "a" 0)', '(buffer/copy (buffer/allocate 4) "abc" 2)', '(buffer/copy (buffer/allocate 4) 5 2)', '(buffer/copy (buffer/allocate 4) :ab 0)', '(:length! (array/new) 3000000000)', '(:length! (array/new) 4294967297)',
         '(buffer/allocate 4294967297)', '(:length! (buffer/allocate 1) 4294967298)', '(:length! #m01 9)', '(set! (:u8 #m0102) 0 5)', '(:u8 #m0102 #f)', '(buffer->string #m0102 2 -1)', '(:length! "abc" 9)', '(set! "abc" 1 65)', '(:cut #m0102 :a)', '(:array 5)']
VALS = [('5', '5'), ('-17', '-17'), ('"text"', '"text"'), (':my-key', ':my-key'), ('{ :err 21 }', '21'), ('{}', '#nil'), ('(array/new 22 1)', '22'), ('(let ((b (buffer/allocate 2))) (set! b 1 23) b)', '23'), ('(let ((b (buffer/allocate 2))) (set! b 1 24) (:u8 b))', '24'),
        ('(fn () 25)', '25'), ('popcount', '2'), ('2.5', '2.5'), ('#nil', ':a-nil'), ('#t', '#t'), ('#f', '#f'), ("'some-symbol", 'some-symbol'), ('(environment* (def q 26))', '26'), ('(list { :err 27 } 1)', '27'), ('(list #nil)', ':a-nil'), ('(list :my-list 1 2)', ':my-list'), ('(list 8)', '8'), ('(cat "a" "b")', '"ab"'), ('(list "x" (list 1))', '"x"'), ('(list :my-b :my-c)', ':my-b')]

FILES = ('f0', 'f1', 'f2', '/sim/f0', '/sim/f1', '/sim/f2')

class Thrown(Exception):
    def __init__(self, v): self.v = v
class TooLong(Exception): pass

# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, R, nf):
        self.R, self.nf, self.n, self.size = R, nf, 0, 0
    def mark(self): self.n += 1; return self.n
    def expr(self, d, vs, es, f=0):
        """d: depth left; vs: variables in scope; es: caught errors in scope; f: functions from this one on may be called."""
        R = self.R
        self.size += 1
        if d <= 0 or self.size > 60:
            k = R.randrange(10)
            if k < 3: return ['k', R.randrange(-9, 100)]
            if k < 5 and vs: return ['v', R.choice(vs)]
            if k < 7: return ['m', self.mark(), ['k', R.randrange(10)]]
            if k < 8: return ['throw', R.randrange(len(VALS))]
            if k < 9: return ['fail', R.randrange(len(FAILS))]
            return ['sys', R.randrange(3)]
        e = lambda dd=1, v=vs, x=es: self.expr(d - R.choice([1, 1, 2]), v, x, f)
        ks = ['m'] * 2 + ['op'] * 4 + ['let', 'set', 'if', 'do', 'do', 'loop', 'while', 'lam', 'map', 'deep', 'meth', 'ret', 'tail'] + ['try'] * 7 + ['tryh'] * 2 + ['tryn'] * 3 + ['call'] * 2 + ['when', 'leaf', 'leaf', 'close', 'eval']
        if es: ks += ['rethrow', 'ev', 'ev']
        k = R.choice(ks)
        if k == 'leaf': return self.expr(0, vs, es, f)
        if k == 'm': return ['m', self.mark(), e()]
        if k == 'op': return ['op', R.choice(OPS), [e() for _ in range(R.randrange(2, 4))]]
        if k == 'let':
            v = 'v%d' % self.mark()
            return ['let', v, e(), e(1, vs + [v])]
        if k == 'set':
            ws = [v for v in vs if v[0] != 'i']         # a loop that sets its own counter may never end
            if not ws: return e()
            return ['set', R.choice(ws), e()]
        if k == 'if': return ['if', e(), e(), e()]
        if k == 'when': return ['when', e(), [e() for _ in range(R.randrange(1, 3))]]
        if k == 'do': return ['do', [e() for _ in range(R.randrange(2, 4))]]
        if k in ('loop', 'while'): return [k, 'i%d' % self.mark(), R.randrange(0, 5), e(1, vs + ['i%d' % self.n])]
        if k == 'lam':
            v = 'x%d' % self.mark()
            return ['lam', e(), v, e(1, vs + [v])]
        if k == 'close':
            v = 'c%d' % self.mark()
            return ['close', v, e(), R.randrange(1, 4)]
        if k == 'map':
            v = 'x%d' % self.mark()
            return ['map', [R.randrange(9) for _ in range(R.randrange(1, 4))], v, e(1, vs + [v])]
        if k in ('deep', 'tail'): return [k, R.choice([0, 1, 2, 3, 7, 30, 200, 1000]), e()]
        if k == 'meth': return ['meth', R.randrange(2), e(), e()]
        if k == 'ret': return ['ret', e()]
        if k == 'eval': return ['eval', self.expr(min(d - 1, 2), [], [], f)]
        if k == 'call':
            if f >= self.nf: return e()
            return ['call', R.randrange(f, self.nf), e()]
        if k == 'tryn': return ['tryn', R.choice([0, 0, 0, 1, 2, 3]), [e() for _ in range(R.randrange(1, 3))]]
        if k in ('try', 'tryh'):
            h = 'e%d' % self.mark()
            return [k, h, self.expr(d - 1, vs, es + [h], f), [e() for _ in range(R.randrange(1, 3))]]
        return [k, R.choice(es)]

OPS = ['+', 'list', 'array', 'ref', 'cons', 'tree', 'apply', 'cat', 'dolist', 'max', 'cond']

def gen(R, i, tier):
    nf = R.randrange(0, 4)
    g = Gen(R, nf)
    fs = []
    for k in range(nf):
        g.size = 20
        fs.append(g.expr(R.randrange(1, 4), ['a'], [], k + 1))
    xs = []
    for _ in range(R.randrange(1, 6)):
        g.size = 0
        xs.append(g.expr(R.randrange(2, 6), [], [], 0))
    runs = [{'gc': gcsched.gen(R, 20), 'sys': [[R.choice(['open', 'read', 'seek']), R.randrange(1000000), R.choice([5, 13, 24])] for _ in range(R.choice([0, 0, 1, 2]))]} for _ in range(2)]
    return {'fs': fs, 'xs': xs, 'mode': R.choice(['x', 'x', 'script']), 'runs': runs, 'asan': R.random() < .1}

# ---------------------------------------------------------------- to Nujel
def code(a):
    k = a[0]
    if k == 'k': return str(a[1])
    if k == 'v': return a[1]
    if k == 'm': return '(do (L %d) %s)' % (a[1], code(a[2]))
    if k == 'throw': return '(throw %s)' % VALS[a[1]][0]
    if k == 'fail': return '(do %s 3)' % FAILS[a[1]]
    if k == 'sys': return '(sysread %d)' % a[1]
    if k == 'op':
        xs = [code(x) for x in a[2]]
        if len(xs) < 2: raise Invalid()
        j = ' '.join(xs)
        if a[1] == '+': return '(+ %s)' % j
        if a[1] == 'list': return '(sum (list %s))' % j
        if a[1] == 'array': return '(sum (:list (array/new %s)))' % j if False else '(ref (array/new %s) %d)' % (j, len(xs) - 1)
        if a[1] == 'ref': return '(ref (array/new %s) 0)' % j
        if a[1] == 'cons': return '(car (cons %s (cons %s #nil)))' % (xs[0], ' '.join(xs[1:2]))
        if a[1] == 'tree': return '(ref { %s } :k1)' % ' '.join(':k%d %s' % z for z in enumerate(xs))
        if a[1] == 'apply': return '(apply (fn (a b) (+ a b)) (list %s %s))' % (xs[0], xs[1])
        if a[1] == 'cat': return '(:length (cat %s))' % j
        if a[1] == 'dolist': return '((fn (a b) (+ a b)) %s %s)' % (xs[0], xs[1])
        if a[1] == 'max': return '(if (> %s %s) 1 2)' % (xs[0], xs[1])
        if a[1] == 'cond': return '(cond ((> %s 5) %s) (:otherwise 7))' % (xs[0], xs[1])
        raise Invalid()
    if k == 'let': return '(let ((%s %s)) %s)' % (a[1], code(a[2]), code(a[3]))
    if k == 'set': return '(set! %s %s)' % (a[1], code(a[2]))
    if k == 'if': return '(if (> %s 5) %s %s)' % (code(a[1]), code(a[2]), code(a[3]))
    if k == 'when': return '(or (when (> %s 5) %s) 11)' % (code(a[1]), ' '.join(map(code, a[2])))
    if k == 'do': return '(do %s)' % ' '.join(map(code, need(a[1])))
    if k == 'loop': return '(let ((r%s 0)) (dotimes (%s %d) (set! r%s (+ r%s %s))) r%s)' % (a[1], a[1], a[2], a[1], a[1], code(a[3]), a[1])
    if k == 'while': return '(let ((%s 0) (r%s 0)) (while (< %s %d) (set! %s (+ %s 1)) (set! r%s %s)) r%s)' % (a[1], a[1], a[1], a[2], a[1], a[1], a[1], code(a[3]), a[1])
    if k == 'lam': return '((fn (%s) %s) %s)' % (a[2], code(a[3]), code(a[1]))
    if k == 'close': return '(let ((%s (let ((n%s 0)) (fn () (set! n%s (+ n%s 1)) (+ n%s %s))))) (list %s) (%s))' % (a[1], a[1], a[1], a[1], a[1], code(a[2]), ' '.join(['(T %s)' % a[1]] * a[3]), a[1])
    if k == 'map': return '(sum (map (list %s) (fn (%s) %s)))' % (' '.join(map(str, need(a[1]))), a[2], code(a[3]))
    if k == 'deep': return '(deep %d (fn () %s))' % (a[1], code(a[2]))
    if k == 'tail': return '(tail %d (fn () %s))' % (a[1], code(a[2]))
    if k == 'meth': return '(:run Obj (fn () (+ %s %s)))' % (code(a[2]), code(a[3])) if a[1] == 0 else '(:two Obj %s (fn () %s) 1)' % (code(a[2]), code(a[3]))
    if k == 'ret': return '((fn () (return %s) (L 999)))' % code(a[1])
    if k == 'eval': return "(eval-in (current-closure) '(+ 0 %s))" % code(a[1]) if False else "(eval-in (environment*) '(+ 0 %s))" % code(a[1])
    if k == 'call': return '(f%d %s)' % (a[1], code(a[2]))
    if k == 'try': return '(try (fn (%s) %s) %s)' % (a[1], code(a[2]), ' '.join(map(code, need(a[3]))))
    if k == 'tryh': return '(let ((h%s (fn (%s) %s))) (try h%s %s))' % (a[1], a[1], code(a[2]), a[1], ' '.join(map(code, need(a[3]))))
    if k == 'tryn': return '(natv (try %s %s))' % (NATIVE[a[1]], ' '.join(map(code, need(a[2]))))
    if k == 'rethrow': return '(throw %s)' % a[1]
    if k == 'ev': return '(do (L (E %s)) 4)' % a[1]
    raise Invalid()

# handlers that are native procedures: one that returns its argument in an array, one without parameters, one that fails, and something that can't be called at all
NATIVE = ['array/new', 'cwd', 'buffer/allocate', '77']

def need(l):
    if not l: raise Invalid()
    return l

# ---------------------------------------------------------------- reference interpreter
class Model:
    def __init__(self, fs, sysres):
        self.fs, self.sysres, self.out, self.steps, self.probes, self.hd = fs, sysres, [], 0, {}, 0
        self.sysn = 0
    def p(self, n): self.probes[n] = self.probes.get(n, 0) + 1
    def ev(self, a, env):
        self.steps += 1
        if self.steps > 4000: raise TooLong()
        k = a[0]; ev = self.ev
        if k == 'k': return a[1]
        if k == 'v': return look(env, a[1])[a[1]]
        if k == 'm': self.out.append('L %d' % a[1]); return ev(a[2], env)
        if k == 'throw': raise Thrown(VALS[a[1]][1])
        if k == 'fail': self.p('runtime-check'); raise Thrown(':err')
        if k == 'sys':
            n = self.sysn; self.sysn += 1
            if n < len(self.sysres) and self.sysres[n]: self.p('system-failure'); raise Thrown(':err')
            return a[1]
        if k == 'op':
            o = a[1]
            if o in ('cond',):
                return ev(a[2][1], env) if ev(a[2][0], env) > 5 else 7
            xs = [ev(x, env) for x in (a[2] if o not in ('cons', 'dolist', 'max', 'apply') else a[2][:2])]
            if o in ('+', 'list', 'apply', 'dolist'): return sum(xs)
            if o == 'array': return xs[-1]
            if o in ('ref', 'cons'): return xs[0]
            if o == 'tree': return xs[1]
            if o == 'cat': return len(''.join(map(str, xs)))
            if o == 'max': return 1 if xs[0] > xs[1] else 2
        if k == 'let': return ev(a[3], ({a[1]: ev(a[2], env)}, env))
        if k == 'set':
            v = ev(a[2], env); look(env, a[1])[a[1]] = v; return v
        if k == 'if': return ev(a[2] if ev(a[1], env) > 5 else a[3], env)
        if k == 'when':
            if not ev(a[1], env) > 5: return 11
            for x in a[2]: v = ev(x, env)
            return v
        if k == 'do':
            for x in a[1]: v = ev(x, env)
            return v
        if k == 'loop':
            r = 0
            if a[2] > 1: self.p('in-loop')
            fr = {a[1]: 0}; e2 = (fr, env)
            while fr[a[1]] < a[2]:
                r += ev(a[3], e2)
                fr[a[1]] += 1
                self.steps += 1
                if self.steps > 4000: raise TooLong()
            return r
        if k == 'while':
            r = 0; fr = {a[1]: 0}; e2 = (fr, env)
            while fr[a[1]] < a[2]:
                fr[a[1]] += 1
                r = ev(a[3], e2)
                self.steps += 1
                if self.steps > 4000: raise TooLong()
            return r
        if k == 'lam': return ev(a[3], ({a[2]: ev(a[1], env)}, env))
        if k == 'close':
            n = 0
            for _ in range(a[3]):
                n += 1
                try: ev(a[2], env)
                except Thrown: self.p('caught')
            n += 1
            return n + ev(a[2], env)
        if k == 'map': return sum([ev(a[3], ({a[2]: x}, env)) for x in a[1]])
        if k in ('deep', 'tail'):
            if a[1] > 20: self.p('deep')
            return ev(a[2], env)
        if k == 'meth':
            x = ev(a[2], env); y = ev(a[3], env)
            return x + y if a[1] == 0 else y
        if k == 'ret': return ev(a[1], env)
        if k == 'eval': return ev(a[1], ({}, None))
        if k == 'call': return ev(self.fs[a[1]], ({'a': ev(a[2], env)}, None))
        if k == 'tryn':
            try:
                self.hd += 1
                try:
                    for x in a[2]: v = ev(x, env)
                finally: self.hd -= 1
                return v
            except Thrown as t: err = t.v
            self.p('native-handler')
            if a[1] == 0: self.out.append('L ' + err); return 4
            if a[1] == 1: return 6
            raise Thrown(':err')
        if k in ('try', 'tryh'):
            try:
                self.hd += 1
                try:
                    for x in a[3]: v = ev(x, env)
                finally: self.hd -= 1
                return v
            except Thrown as t: err = t.v
            self.p('caught')
            if self.hd: self.p('nested-catch')
            try: return ev(a[2], ({a[1]: ('err', err)}, env))
            except Thrown: self.p('from-handler'); raise
        if k == 'rethrow': self.p('rethrown'); raise Thrown(look(env, a[1])[a[1]][1])
        if k == 'ev': self.out.append('L ' + look(env, a[1])[a[1]][1]); return 4
        raise Invalid()

def look(env, n):
    while env:
        if n in env[0]: return env[0]
        env = env[1]
    raise Invalid()

def run_model(case, sysres):
    m = Model(case['fs'], sysres)
    for i, x in enumerate(case['xs']):
        try: m.out.append('=%d %d' % (i, m.ev(x, ({}, None))))
        except Thrown as t: m.out.append('=%d (:exc %s)' % (i, t.v)); m.p('uncaught')
    # the last expression once more, without a handler around it
    try: m.ev(case['xs'][-1], ({}, None)); m.out.append('END'); m.status = 0
    except Thrown as t: m.status = 1; m.mute = t.v in (':a-nil', '#f', '#nil')     # shown as nothing at all
    return m

def scopes(a, vs, nf, f):
    """Every variable and function must be in scope (also where the interpreter does not get to)."""
    k = a[0]
    if k in ('v', 'set', 'rethrow', 'ev') and a[1] not in vs: raise Invalid()
    if k == 'call' and not f <= a[1] < nf: raise Invalid()
    if k in ('m', 'tail', 'deep'): scopes(a[2], vs, nf, f)
    elif k == 'op': [scopes(x, vs, nf, f) for x in a[2]]
    elif k == 'let': scopes(a[2], vs, nf, f); scopes(a[3], vs | {a[1]}, nf, f)
    elif k == 'set' and a[1][0] == 'i': raise Invalid()
    elif k == 'set': scopes(a[2], vs, nf, f)
    elif k == 'if': [scopes(x, vs, nf, f) for x in a[1:]]
    elif k == 'when': scopes(a[1], vs, nf, f); [scopes(x, vs, nf, f) for x in need(a[2])]
    elif k == 'do': [scopes(x, vs, nf, f) for x in a[1]]
    elif k in ('loop', 'while'): scopes(a[3], vs | {a[1]}, nf, f)
    elif k == 'lam': scopes(a[1], vs, nf, f); scopes(a[3], vs | {a[2]}, nf, f)
    elif k == 'close': scopes(a[2], vs, nf, f)
    elif k == 'map': scopes(a[3], vs | {a[2]}, nf, f)
    elif k == 'meth': scopes(a[2], vs, nf, f); scopes(a[3], vs, nf, f)
    elif k in ('ret',): scopes(a[1], vs, nf, f)
    elif k == 'eval': scopes(a[1], frozenset(), nf, f)
    elif k == 'call': scopes(a[2], vs, nf, f)
    elif k == 'tryn': [scopes(x, vs, nf, f) for x in a[2]]
    elif k in ('try', 'tryh'): scopes(a[2], vs | {a[1]}, nf, f); [scopes(x, vs, nf, f) for x in a[3]]

def scen(case):
    pre = PRE + ''.join('(def f%d (fn (a) a))' % k for k in range(len(case['fs']))) + '\n'
    fs = ['(set! f%d (fn (a) %s))' % (k, code(x)) for k, x in enumerate(case['fs'])]
    xs = ['(R %d (fn () %s))' % (i, code(x)) for i, x in enumerate(case['xs'])]
    last = '(do %s (print "END\\n"))' % code(case['xs'][-1])
    s = Scenario()
    if case['mode'] == 'x':
        args = ['nujel']
        for x in [pre] + fs + xs + [last]: args += ['-x', x]
        s.args(*args)
    else:
        s.args('nujel', 'm.nuj').file('/sim/m.nuj', '\n'.join([pre] + fs + xs + [last]) + '\n')
    for k in range(3): s.file('/sim/f%d' % k, b'content %d' % k)
    return s.add('loglevel 2')

def sysresults(r):
    """For every read of one of the program's files, in order: did a system call in it fail?"""
    L, pend, cur = [], False, None
    for l, d in r.events():
        if l.startswith('FAULT open'): pend = True
        elif l.startswith('open '):
            f = l.split(' ')
            if f[1] in FILES:
                L.append(pend); cur = len(L) - 1
            else: cur = None
            pend = False
        elif l.startswith('FAULT ') and cur is not None: L[cur] = True
    return L

def execute(case, env, o):
    nf = len(case['fs'])
    for k, x in enumerate(case['fs']): scopes(x, frozenset('a'), nf, k + 1)
    for x in case['xs']: scopes(x, frozenset(), nf, 0)
    if not case['xs'] or case['mode'] not in ('x', 'script'): raise Invalid()
    try: run_model(case, [])
    except TooLong: return
    except RecursionError: return
    if case['mode'] == 'script': o.probe('script')
    w = env.world(case.get('asan', False))
    base = None
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl = []
        if x:
            lo = base_lo
            for op, pos, err in x['sys']:
                a, b = lo[op]
                if b > a and op in ('open', 'read', 'seek'): fl.append('fault %s %d %d' % (op, a + pos * (b - a) // 1000000, err))
            for l in fl: s.add(l)
            for l in gcsched.lines(x['gc'], first, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        if base is None:
            base = r
            outs = [l for l in r.log.split('\n') if l.startswith('out ')]
            first = int(outs[0].split(' ')[2]) if outs else 0
            # the calls made by the program itself come after those that loaded it
            base_lo = {}
            pre = {'open': 0, 'read': 0, 'seek': 0}
            for l, d in r.events():
                if l.startswith('open ') and l.split(' ')[1] in FILES: break
                op = l.split(' ')[0]
                if op in pre: pre[op] += 1
            tot = nj.calls(r)
            base_lo = {op: (pre[op] if op != 'seek' else 4 * (case['mode'] == 'script'), tot.get(op, 0)) for op in pre}
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        if r.head['gcs']: o.probe('collected')
        try: m = run_model(case, sysresults(r))
        except TooLong: return
        for n, c in m.probes.items(): o.probe(n, c)
        if m.probes.get('caught'): o.nontrivial = True
        lines = [l for l in r.out.decode('latin-1').replace('\r', '').split('\n')]
        got = lines[:len(m.out)]
        if got != m.out:
            z = next((i for i in range(len(m.out)) if i >= len(got) or got[i] != m.out[i]), 0)
            o.violation('trace', '%sline %d of the trace is %r, should be %r; before it: %r' % (what, z, got[z] if z < len(got) else None, m.out[z], m.out[max(0, z - 5):z])); return
        rest = lines[len(m.out):]
        if any(l == 'END' or l.startswith('L ') or l.startswith('=') for l in rest): o.violation('trace', '%sgoes on with %r after the trace %r' % (what, rest[:5], m.out[-5:])); return
        if m.status and not m.mute and not any(l.strip() for l in rest) and not r.err.strip(): o.violation('report', what + 'the uncaught exception was not reported'); return
        st = m.status if case['mode'] == 'script' else 0
        if r.kind != 'exit' or (r.status != 0) != (st != 0): o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
    o.key = repr((case['fs'], case['xs'], case['runs']))

def subs(a):
    return [x for x in a[1:] if isinstance(x, list) and x and isinstance(x[0], str)] + [y for x in a[1:] if isinstance(x, list) and x and isinstance(x[0], list) for y in x]

def smaller(a):
    if a[0] != 'k': yield ['k', 1]
    for x in subs(a): yield x
    for i in range(1, len(a)):
        x = a[i]
        if isinstance(x, list) and x and isinstance(x[0], str):
            for y in smaller(x): yield a[:i] + [y] + a[i+1:]
        elif isinstance(x, list) and x and isinstance(x[0], list):
            if len(x) > (2 if a[0] == 'op' else 1):
                for j in range(len(x)): yield a[:i] + [x[:j] + x[j+1:]] + a[i+1:]
            for j in range(len(x)):
                for y in smaller(x[j]): yield a[:i] + [x[:j] + [y] + x[j+1:]] + a[i+1:]
    if a[0] in ('deep', 'tail', 'loop', 'while'):
        j = 1 if a[0] in ('deep', 'tail') else 2
        if a[j] > 0: yield a[:j] + [a[j] // 2] + a[j+1:]

def shrink(case):
    for k in range(len(case['runs'])): yield dict(case, runs=case['runs'][:k] + case['runs'][k+1:])
    for k in range(len(case['xs'])):
        if len(case['xs']) > 1: yield dict(case, xs=case['xs'][:k] + case['xs'][k+1:])
    for k in range(len(case['runs'])):
        q = case['runs'][k]
        for j in range(len(q['sys'])): yield dict(case, runs=case['runs'][:k] + [dict(q, sys=q['sys'][:j] + q['sys'][j+1:])] + case['runs'][k+1:])
        if q['gc'] != {'k': 'at', 'v': []}: yield dict(case, runs=case['runs'][:k] + [dict(q, gc={'k': 'at', 'v': []})] + case['runs'][k+1:])
    if case['fs']: yield dict(case, fs=case['fs'][:-1])
    for w in ('xs', 'fs'):
        for k in range(len(case[w])):
            for y in smaller(case[w][k]): yield dict(case, **{w: case[w][:k] + [y] + case[w][k+1:]})
    if case.get('asan'): yield dict(case, asan=False)
