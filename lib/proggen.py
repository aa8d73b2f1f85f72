"""Programs with known results.

A program is a list of units.  A unit is one "object" living in its own global
variables and a sequence of phases; each phase is a Nujel expression and the
external form of the value it has to produce.  The phases of different units
are interleaved, with garbage produced in between, so that at any instant many
objects of all types are live through many kinds of references, and all of
them are looked at again later.
"""
import random, re, json

PRELUDE = r'''
(defn show (v) (println (string/write v)))
(defclass Junk
  (defn new (self a) { :prototype* self :a a })
  (defn get (self) self.a))
(defn churn (n)
  (def acc #nil)
  (dotimes (i n acc)
    (set! acc (cons (cat "junk" i) (if (> (:length acc) 3) #nil acc)))
    (def a (:alloc Array 3))
    (set! a 0 (fn (x) (+ x i)))
    (set! a 1 { :k i :l (list i i) })
    (set! a 2 (:u8 (buffer/allocate 8)))
    (def o (:new Junk (:symbol (cat "junk-sym-" (rem i 7)))))
    (set! (ref a 2) 3 (bit-and i 127))
    (set! acc (cons (+ ((ref a 0) 1) (ref (ref a 2) 3) (:length (:string (:get o)))) acc))))
(def native-img (image/serialize (array/new popcount mul/int sub/int cbrt)))
(defn ident (x) x)
(defn deep (n f) (if (zero? n) (f) (do (def r (deep (- n 1) f)) (churn 1) r)))
'''

class S:             # a symbol / keyword / raw piece of output
    def __init__(self, t): self.t = t

def ext(v):
    """The external form of a value."""
    if isinstance(v, S): return v.t
    if v is None: return '#nil'
    if v is True: return '#t'
    if v is False: return '#f'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"' + v + '"'
    if isinstance(v, tuple): return '##(' + ' '.join(ext(x) for x in v) + ')'
    if isinstance(v, list): return '(' + ' '.join(ext(x) for x in v) + ')' if v else '#nil'
    if isinstance(v, bytes): return '#m' + v.hex().upper()
    raise TypeError(v)

def lit(v):
    """An expression building a fresh value."""
    if isinstance(v, S): return v.t if v.t[0] == ':' else "'" + v.t
    if isinstance(v, tuple): return '(array/new ' + ' '.join(lit(x) for x in v) + ')' if v else '(:alloc Array 0)'
    if isinstance(v, list): return '(list ' + ' '.join(lit(x) for x in v) + ')' if v else '#nil'
    if isinstance(v, str): return '(cat "%s" "%s")' % (v[:len(v)//2], v[len(v)//2:])
    return ext(v)

WORDS = ['ab', 'foo', 'q', 'lorem', 'xyzzy', 'k9', 'mno', 'zz', 'delta', 'w']
def word(R): return R.choice(WORDS) + '%02d' % R.randrange(100)
def scalar(R):
    return R.choice([lambda: R.randrange(-1000, 100000), lambda: word(R), lambda: S(':' + word(R)), lambda: S(word(R)), lambda: True, lambda: R.randrange(-5, 300)])()
def value(R, d=2):
    if d == 0 or R.random() < .4: return scalar(R)
    if R.random() < .3: return tuple(value(R, d-1) for _ in range(R.randrange(1, 4)))
    return [value(R, d-1) for _ in range(R.randrange(1, 4))]

UNITS = {}
def unit(f): UNITS[f.__name__[2:]] = f; return f

# Each unit yields (expression, expected value).  g(name) names a global of the unit.
@unit
def u_list(R, g):
    l = [value(R) for _ in range(R.randrange(1, 5))]
    x = g('l')
    yield '(do (set! %s %s) (:length %s))' % (x, lit(l), x), len(l)
    for _ in range(R.randrange(2, 7)):
        op = R.randrange(8)
        if op == 0:
            v = value(R); l = [v] + l
            yield '(do (set! %s (cons %s %s)) %s)' % (x, lit(v), x, x), l
        elif op == 1:
            v = [value(R) for _ in range(R.randrange(1, 3))]; l = l + v
            yield '(do (set! %s (append %s %s)) %s)' % (x, x, lit(v), x), l
        elif op == 2:
            l = l[::-1]
            yield '(do (set! %s (reverse %s)) %s)' % (x, x, x), l
        elif op == 3:
            yield '(map %s (fn (v) (list v (churn 1) 7)))' % x, None if not l else [[v, S('*'), 7] for v in l]
        elif op == 4:
            yield '(map %s (fn (v) (list 1 v)))' % x, [[1, v] for v in l]
        elif op == 5 and len(l) > 1:
            l = l[1:]
            yield '(do (set! %s (cdr %s)) (list (car %s) (car %s)))' % (x, x, x, x), [l[0], l[0]]
        elif op == 6 and len(l) > 1:
            yield '(list/cut %s 0 2)' % x, l[:2]
        else:
            yield x, l

@unit
def u_array(R, g):
    x = g('a')
    a = [None] * R.randrange(1, 9)
    yield '(do (set! %s (:alloc Array %d)) (:length %s))' % (x, len(a), x), len(a)
    for _ in range(R.randrange(3, 9)):
        op = R.randrange(7)
        if op <= 2:
            i = R.randrange(len(a)); v = value(R); a[i] = v
            yield '(do (set! %s %d %s) (ref %s %d))' % (x, i, lit(v), x, i), v
        elif op == 3:
            n = R.randrange(1, 14); a = (a + [None] * 14)[:n] if n > len(a) else a[:n]
            yield '(do (:length! %s %d) (:length %s))' % (x, n, x), n
        elif op == 4:
            v = value(R); a = a + [v]
            yield '(do (set! %s (array/push %s %s)) %s)' % (x, x, lit(v), x), tuple(a)
        elif op == 5:
            a = [[1, v] for v in a]
            yield '(array/map %s (fn (v) (churn 1) (list 1 v)))' % x, tuple(a)
        else:
            yield x, tuple(a)
    yield x, tuple(a)

@unit
def u_tree(R, g):
    x = g('t'); t = {}
    yield '(do (set! %s (tree/new #nil)) (:length %s))' % (x, x), 0
    for _ in range(R.randrange(3, 9)):
        op = R.randrange(6)
        if op <= 2:
            for _ in range(R.randrange(1, 4)):
                k = word(R); v = value(R); t[k] = v
                if R.random() < .5: kx = ':' + k
                else: kx = '(:symbol (cat "%s" "%s"))' % (k[:1], k[1:])
                yield '(do (set! %s %s %s) (ref %s %s))' % (x, kx, lit(v), x, kx), v
        elif op == 3:
            yield '(sort (map (:keys %s) :string))' % x, sorted(t)
        elif op == 4:
            k = R.choice(sorted(t)) if t and R.random() < .7 else 'none' + word(R)
            yield '(list (:has? %s :%s) (ref %s :%s))' % (x, k, x, k), [k in t, t.get(k)]
        else:
            yield '(do (set! %s (:clone %s)) (:length %s))' % (x, x, x), len(t)
    for k in sorted(t): yield '(ref %s :%s)' % (x, k), t[k]

@unit
def u_buffer(R, g):
    b, v = g('b'), g('v')
    n = R.choice([1, 3, 8, 16, 33])
    d = bytearray(n)
    only = R.random() < .5      # keep nothing but the view
    yield '(do (set! %s (buffer/allocate %d)) (dotimes (i %d) (set! %s i 0)) (set! %s (:u8 %s)) %s (:length %s))' % (b, n, n, b, v, b, '(set! %s #nil)' % b if only else '', v), n
    for _ in range(R.randrange(2, 8)):
        op = R.randrange(4)
        if op <= 1:
            i = R.randrange(n); c = R.randrange(256); d[i] = c
            yield '(do (set! %s %d %d) (ref %s %d))' % (v, i, c, v, i), c
        elif op == 2:
            s = word(R)[:n]
            d[:len(s)] = s.encode()
            yield '(do (buffer/copy (:buffer %s) (cat "%s") 0 %d) (:buffer %s))' % (v, s, len(s), v), bytes(d)
        else:
            yield '(buffer->string (:cut (:buffer %s) 0 0))' % v, ''
        if not only and R.random() < .3:
            m = n + R.randrange(0, 20); k = n; n = m
            d = (d + bytearray(40))[:m]
            # what is added is all zeroes
            yield '(do (:length! %s %d) (set! %s (:u8 %s)) (:length %s))' % (b, m, v, b, v), m
    yield '(:buffer %s)' % v, bytes(d)

@unit
def u_string(R, g):
    x = g('s'); s = word(R)
    yield '(set! %s (cat "%s" "%s"))' % (x, s[:1], s[1:]), s
    for _ in range(R.randrange(2, 7)):
        op = R.randrange(6)
        if op == 0:
            w = word(R); s = s + w
            yield '(do (set! %s (cat %s "%s")) %s)' % (x, x, w, x), s
        elif op == 1:
            i = R.randrange(10); s = 'n%d-%s' % (i, s)
            yield '(do (set! %s (let ((i %d)) (churn 1) (fmt "n{i}-{%s}"))) %s)' % (x, i, x, x), s
        elif op == 2:
            yield '(split (cat %s "," %s ",x") ",")' % (x, x), [s, s, 'x']
        elif op == 3:
            yield '(join (list %s "b" (cat %s 1)) "+")' % (x, x), s + '+b+' + s + '1'
        elif op == 4:
            yield '(with-string-port p (dotimes (i 5) (:write p %s) (churn 1) (:char-write p 45)))' % x, (s + '-') * 5
        else:
            n = min(len(s), R.randrange(1, 5))
            yield '(list (:cut %s 0 %d) (upper-case %s) (:length %s))' % (x, n, x, x), [s[:n], s.upper(), len(s)]

@unit
def u_counter(R, g):
    x, y = g('mk'), g('cs'); c = [R.randrange(100) for _ in range(R.randrange(1, 4))]
    yield '(do (set! %s (fn (n) (def step (list n 1)) (fn (d) (set! n (+ n d)) (churn 1) (cons n step)))) 1)' % x, 1
    yield '(do (set! %s (list %s)) (:length %s))' % (y, ' '.join('(%s %d)' % (x, v) for v in c), y), len(c)
    init = list(c)
    for _ in range(R.randrange(2, 8)):
        i = R.randrange(len(c)); d = R.randrange(-9, 10); c[i] += d
        yield '((list-ref* %d %s) %d)' % (i, y, d), [c[i], init[i], 1]

@unit
def u_envs(R, g):
    x = g('f'); a, b, c = (word(R) for _ in range(3)); n = R.randrange(50)
    yield '(do (set! %s (fn (a) (def l (list a a)) (fn (b) (let ((c (cat a b))) (fn (d) (churn 1) (list l c (cat a b c d))))))) 0)' % x, 0
    yield '(do (set! %s (%s "%s")) 1)' % (x, x, a), 1
    yield '(do (set! %s (%s "%s")) 2)' % (x, x, b), 2
    for _ in range(R.randrange(1, 4)):
        w = word(R)
        yield '(%s "%s")' % (x, w), [[a, a], a + b, a + b + a + b + w]

@unit
def u_args(R, g):
    f = g('f')
    yield '(do (set! %s (fn (v) (churn 2) (list (cat "r" v) v))) 0)' % f, 0
    for _ in range(R.randrange(1, 5)):
        vs = [R.randrange(1000) for _ in range(R.randrange(2, 6))]
        parts, e = [], []
        for v in vs:
            k = R.randrange(5)
            if k == 0: parts.append('(%s %d)' % (f, v)); e.append(['r%d' % v, v])
            elif k == 1: parts.append('(cat "s" %d)' % v); e.append('s%d' % v)
            elif k == 2: parts.append('(array/new (cat %d) (churn 0) %d)' % (v, v)); e.append((str(v), None, v))
            elif k == 3: parts.append('(let ((t { :v (list %d) })) (churn 1) (ref t :v))' % v); e.append([v])
            else: parts.append('(car (cons (cons %d (list (cat %d))) (churn 1)))' % (v, v)); e.append([v, str(v)])
        yield '(list %s)' % ' '.join(parts), e

@unit
def u_try(R, g):
    h, log = g('h'), g('log')
    yield '(do (set! %s (list)) (set! %s (fn (v) (set! %s (cons (car v) %s)) (churn 1) (list :h (car v)))) 0)' % (log, h, log, log), 0
    seen = []
    for _ in range(R.randrange(1, 6)):
        v = R.choice([word(R), R.randrange(1000), S(':' + word(R))]); n = R.randrange(0, 8); k = R.randrange(5); w = word(R)
        if k == 0:
            seen = [v] + seen
            yield '(list (cat "%s" 1) (try %s (churn 1) (deep %d (fn () (throw %s)))) (cat "%s" 2))' % (w, h, n, lit(v), w), [w + '1', [S(':h'), v], w + '2']
        elif k == 1:
            yield '(try %s (list (churn 0) %s))' % (h, lit(v)), [None, v]
        elif k == 2:
            seen = [v] + seen
            yield '(list (list %s (try (fn (e) (try %s (churn 1) (throw e))) (list 1 (list 2 (throw %s))))))' % (lit(w), h, lit(v)), [[w, [S(':h'), v]]]
        elif k == 3:
            yield '(try (fn (e) (churn 1) (list (car e) (cadr e) "%s")) (list 3 (car (:no-such-method %d))))' % (w, R.randrange(9)), [S(':type-error'), 'Unknown method', w]
        else:
            m = R.randrange(1, 4)
            e = v
            for _ in range(m): e = [w, e]
            x = '(throw %s)' % lit(v)
            for _ in range(m): x = '(try (fn (e) (throw (cat "%s") )) %s)' % (w, x) if False else '(list (cat "%s") (try (fn (e) (car e)) (churn 1) %s))' % (w, x)
            yield x, e
        if R.random() < .3: yield log, seen

@unit
def u_redefine(R, g):
    f = g('f'); w = word(R); n = R.randrange(1000)
    yield '(do (set! %s (fn (a) (set! %s #nil) (churn 3) (def l (list "%s" :%s \'(1 2 "%s") a %d)) (churn 2) l)) (%s "%s"))' % (f, f, w, w, w, n, f, w), [w, S(':' + w), [1, 2, w], w, n]
    yield f, None
    h = g('h')
    yield '(do (set! %s (fn (n) (if (zero? n) (do (set! %s (fn (x) x)) (churn 3) (list "%s")) (cons n (%s (- n 1)))))) (%s 4))' % (h, h, w, h, h), [4, 3, 2, 1, w]
    yield '(%s (list "%s"))' % (h, w), [w]

@unit
def u_eval(R, g):
    f = g('f'); w = word(R); n = R.randrange(1000)
    yield '(eval-in (environment*) (car (read "(list (cat \\"%s\\" %d) :%s \\"%s\\" (quote (1 (x \\"y\\"))))")))' % (w, n, w, w), [w + str(n), S(':' + w), w, [1, [S('x'), 'y']]]
    yield '(do (set! %s (eval-in (environment*) (car (read "(fn (a) (def lit (quote (a (b \\"%s\\")))) (fn (b) (list a b lit \\"%s\\")))")))) 0)' % (f, w, w), 0
    yield '(do (set! %s (%s (cat "%s"))) (churn 2) (%s 5))' % (f, f, w, f), [w, 5, [S('a'), [S('b'), w]], w]
    yield '(%s (list))' % f, [w, None, [S('a'), [S('b'), w]], w]

@unit
def u_symbols(R, g):
    x = g('t'); names = ['dyn-%s-%d' % (word(R), R.randrange(1000)) for _ in range(R.randrange(2, 8))]
    yield '(do (set! %s (tree/new #nil)) %s (:length %s))' % (x, ' '.join('(set! %s (:symbol (cat "%s" "%s")) (list %d (:keyword "%s")))' % (x, n[:5], n[5:], i, n) for i, n in enumerate(names)), x), len(set(names))
    last = {n: i for i, n in enumerate(names)}
    for _ in range(R.randrange(1, 5)):
        n = R.choice(names)
        yield '(do (churn 3) (ref %s (:symbol (cat "%s" "%s"))))' % (x, n[:7], n[7:]), [last[n], S(':' + n)]
    yield '(= (gensym) (gensym))', False
    yield '(let ((s (gensym))) (churn 3) (list (= s (:symbol (:string s))) (= (:keyword (cat "dyn-" "%s")) :dyn-%s)))' % (names[0][4:], names[0][4:]), [True, True]

@unit
def u_class(R, g):
    o, p = g('o'), g('p'); w = word(R); n = R.randrange(100)
    yield '(do (set! %s { :prototype* #nil :new (fn (self v) { :prototype* self :v (list v) }) :get (fn (self) (churn 1) (cons "%s" (ref self :v))) :put (fn (self v) (churn 1) (set! self :v (cons v (ref self :v))) self) }) 0)' % (p, w), 0
    yield '(do (set! %s (:new %s %d)) (:get %s))' % (o, p, n, o), [w, n]
    l = [n]
    for _ in range(R.randrange(1, 5)):
        v = value(R, 1); l = [v] + l
        yield '(:get (:put %s %s))' % (o, lit(v)), [w] + l
    yield '(do (set! %s #nil) (:get %s))' % (p, o), [w] + l

@unit
def u_rest(R, g):
    f = g('f')
    yield '(do (set! %s (fn (a . r) (churn 1) (list a (:length r) r))) 0)' % f, 0
    for _ in range(R.randrange(1, 5)):
        vs = [value(R, 1) for _ in range(R.randrange(1, 7))]
        if R.random() < .5: yield '(%s %s)' % (f, ' '.join(lit(v) for v in vs)), [vs[0], len(vs) - 1, vs[1:] or [None]] if len(vs) > 1 else [vs[0], S('*'), S('*')]
        else: yield '(apply %s %s)' % (f, lit(vs)), [vs[0], len(vs) - 1, vs[1:]] if len(vs) > 1 else [vs[0], S('*'), S('*')]

@unit
def u_meta(R, g):
    f = g('f'); w = word(R)
    yield '(do (set! %s (fn (a) "doc %s" :cat :%s (churn 1) (list a "%s"))) (%s 1))' % (f, w, w, w, f), [1, w]
    yield '(list (:meta %s :documentation) (:meta %s :cat))' % (f, f), ['doc ' + w, S(':' + w)]
    yield '(do (:meta! %s :note (list "%s" 1)) (:meta %s :note))' % (f, w, f), [w, 1]
    yield '(do (churn 2) (:meta %s :note))' % f, [w, 1]

@unit
def u_env(R, g):
    e = g('e'); w = word(R)
    yield '(do (set! %s (environment* (def q (list "%s" 5)) (defn get () (churn 1) q))) 0)' % (e, w), 0
    yield "(eval-in %s '(get))" % e, [w, 5]
    yield "(do (eval-in %s '(def z (cons 1 q))) (churn 1) (eval-in %s 'z))" % (e, e), [1, w, 5]
    yield "(do (eval-in %s '(set! q (cat q))) (ref %s 'z))" % (e, e), [1, w, 5]

@unit
def u_deep(R, g):
    f = g('f'); n = R.choice([3, 10, 40, 120]); w = word(R)
    yield '(do (set! %s (fn (n) (if (zero? n) (list) (cons (cat "%s" n) (%s (- n 1)))))) (:length (%s %d)))' % (f, w, f, f, n), n
    yield '(car (%s %d))' % (f, n), w + str(n)
    yield '(sum (map (%s %d) (fn (s) (churn 0) (:length s))))' % (f, min(n, 40)), sum(len(w + str(i)) for i in range(1, min(n, 40) + 1))

@unit
def u_loop(R, g):
    x = g('x'); n = R.randrange(2, 12)
    yield '(do (set! %s (list)) (dotimes (i %d) (def t (cons i %s)) (churn 1) (set! %s t)) %s)' % (x, n, x, x, x), list(range(n))[::-1]
    yield '(let ((r (list)) (i 0)) (while (< i %d) (set! r (cons (cat i) r)) (set! i (inc i)) (churn 1)) (nreverse r))' % n, [str(i) for i in range(n)]
    yield '(doseq (v %s :end) (churn 1) (list v))' % x, S(':end')

@unit
def u_sort(R, g):
    x = g('x'); l = [R.randrange(-99, 999) for _ in range(R.randrange(2, 20))]
    yield '(do (set! %s %s) (sort %s))' % (x, lit(l), x), sorted(l)
    yield x, l
    ws = [word(R) for _ in range(R.randrange(2, 8))]
    yield '(sort %s)' % lit(ws), sorted(ws)
    yield '(array/sort %s)' % lit(tuple(l)), tuple(sorted(l))

@unit
def u_image(R, g):
    x = g('x'); v = value(R, 3)
    yield '(do (set! %s (image/serialize %s)) (churn 2) (image/deserialize %s))' % (x, lit(v), x), v
    yield '(do (set! %s (image/deserialize %s)) (churn 2) %s)' % (x, x, x), v
    w = word(R)
    yield '(do (set! %s (image/deserialize (image/serialize { :f (list "%s") :g ##(1 "%s") }))) (churn 2) (list (ref %s :f) (ref %s :g)))' % (x, w, w, x, x), [[w], (1, w)]

@unit
def u_macro(R, g):
    w = word(R); n = R.randrange(100)
    e = g('e')
    yield "(do (set! %s (environment*)) (eval-in %s '(defmacro m (a . b) (churn 1) (list 'list a \"%s\" (cons 'do b)))) 0)" % (e, e, w), 0
    yield "(eval-in %s '(m %d (churn 1) (cat \"%s\" 1)))" % (e, n, w), [n, w, w + '1']

@unit
def u_method(R, g):
    t = R.choice(['Tree', 'Array', 'Buffer', 'Pair', 'String']); m = 'm-' + word(R); w = word(R)
    o = {'Tree': '{ :a 1 }', 'Array': '##(1 2)', 'Buffer': '(buffer/allocate 2)', 'Pair': '(list 1 2)', 'String': '(cat "x" "y")'}[t]
    yield '(do (:add-method %s :%s (fn (self v) (churn 1) (list "%s" v (:length self)))) 0)' % (t, m, w), 0
    n = {'Tree': 1, 'Array': 2, 'Buffer': 2, 'Pair': 2, 'String': 2}[t]
    yield '(do (churn 2) (:%s %s "%s"))' % (m, o, w), [w, w, n]
    yield '(do (:add-method %s :%s (fn (self) (list :other))) (churn 3) (:%s %s))' % (t, m, m, o), [S(':other')]

@unit
def u_shared(R, g):
    x, y = g('x'), g('y'); v = value(R, 1); w = value(R, 1)
    yield '(do (set! %s (array/new %s 0)) (set! %s { :in %s :cl (fn () (ref %s 0)) }) (set! %s #nil) (churn 2) ((ref %s :cl)))' % (x, lit(v), y, x, x, x, y) if False else \
          '(let ((a (array/new %s 0))) (set! %s { :in a :cl (fn () (ref a 0)) }) (churn 2) ((ref %s :cl)))' % (lit(v), y, y), v
    yield '(do (set! (ref %s :in) 0 %s) (churn 2) ((ref %s :cl)))' % (y, lit(w), y), w
    yield '(do (set! %s (list %s (ref %s :cl))) (set! %s #nil) (churn 2) ((cadr %s)))' % (x, lit(v), y, y, x), w

@unit
def u_cycle(R, g):
    x = g('x'); w = word(R)
    yield '(do (set! %s (array/new "%s" 0 0)) (set! %s 1 %s) (set! %s 2 { :self %s :v (list "%s") }) (churn 2) (ref (ref (ref %s 1) 1) 0))' % (x, w, x, x, x, x, w, x), w
    yield '(do (set! %s (ref %s 2)) (churn 2) (ref (ref (ref (ref %s :self) 1) 2) :v))' % (x, x, x), [w]

@unit
def u_iview(R, g):
    # what is left of a buffer is a view nothing can be written through
    v, m = g('v'), R.choice([':u8', ':s8', ':u16', ':s16', ':u32', ':s32', ':s64'])
    w = int(m[2:]) // 8; n = R.randrange(1, 6)
    d = bytes(R.randrange(1, 100) for _ in range(n * w))
    at = lambda i: int.from_bytes(d[i*w:i*w+w], 'little')
    yield '(do (set! %s (let ((b (buffer/allocate %d))) %s (%s b #t))) (:length %s))' % (v, n * w, ' '.join('(set! (:u8 b) %d %d)' % (i, c) for i, c in enumerate(d)), m, v), n
    for _ in range(R.randrange(2, 6)):
        i = R.randrange(n)
        k = R.randrange(4)
        if k == 0: yield '(try (fn (e) (car e)) (set! %s %d 1) :written)' % (v, i), S(':type-error')
        elif k == 1: yield '(do (churn 4) (map (range 3) (fn (x) (set! (:u8 (buffer/allocate %d)) 0 9))) (ref %s %d))' % (n * w, v, i), at(i)
        else: yield '(ref %s %d)' % (v, i), at(i)
    yield '(:buffer %s)' % v, d

@unit
def u_native(R, g):
    # a native procedure nothing refers to any more, found again by its name
    x = g('f'); i = R.randrange(4); n, arg, e = [('popcount', '255', 8), ('mul/int', '3 4', 12), ('sub/int', '9 4', 5), ('cbrt', '27', S('*'))][i]
    yield '(do (set! %s #nil) (churn 3) (set! %s (ref (image/deserialize native-img) %d)) (%s %s))' % (n, x, i, x, arg), e
    yield '(do (churn 3) (list (%s %s) (= :string (:type-name (:meta %s :documentation))) (:meta %s :nope)))' % (x, arg, x, x), [e, True, None]

@unit
def u_code(R, g):
    # code as data: a procedure's instructions and literals, taken apart and put together again
    x, y = g('x'), g('y'); w = word(R); n = R.randrange(100)
    yield '(do (set! %s (eval-in (environment*) (car (read "(fn (a) (list a \\"%s\\" %d :%s))")))) 1)' % (x, w, n, w), 1
    yield '(do (set! %s (:code %s)) (set! %s #nil) (churn 3) (= :bytecode-array (:type-name %s)))' % (y, x, x, y), True
    yield '(do (set! %s (:array %s)) (churn 3) (> (:length %s) 3))' % (x, y, x), True
    yield '(do (set! %s (:bytecode-array %s (:literals %s))) (set! %s #nil) (churn 3) (= (string/write (:array %s)) (string/write (:array (:bytecode-array %s (:literals %s))))))' % (y, x, y, x, y, '(:array %s)' % y, y), True

def edge(R, *ns): return R.choice(ns) + R.choice([0, 0, 0, 1, -1, 3])

def u_wide(R, g):
    # one object that holds very many others
    x, y = g('x'), g('y'); k = R.randrange(6); n = edge(R, 60, 255, 256, 1000, 1024); q = R.randrange(1, 9); w = word(R)
    if k == 0:
        n = edge(R, 255, 256, 1024, 4096, 5000)
        yield '(do (set! %s (:alloc Array %d)) (dotimes (i %d) (set! %s i (list i (+ i %d)))) (:length %s))' % (x, n, n, x, q, x), n
        chk = '(let ((c 0)) (dotimes (i (:length %s)) (when (and (= (car (ref %s i)) i) (= (cadr (ref %s i)) (+ i %d))) (set! c (+ c 1)))) c)' % (x, x, x, q)
    elif k == 1:
        yield '(do (set! %s (:alloc Array %d)) (dotimes (i %d) (set! %s i (cat "%s" i))) (:length %s))' % (x, n, n, x, w, x), n
        chk = '(let ((c 0)) (dotimes (i (:length %s)) (when (= (ref %s i) (cat "%s" i)) (set! c (+ c 1)))) c)' % (x, x, w)
    elif k == 2:
        n = edge(R, 255, 256, 1024, 5000)
        yield '(do (dotimes (i %d) (set! %s (cons (list i %d) %s))) (:length %s))' % (n, x, q, x, x), n
        chk = '(let ((c 0) (l %s) (i %d)) (while l (set! i (- i 1)) (when (and (= (car (car l)) i) (= (cadr (car l)) %d)) (set! c (+ c 1))) (set! l (cdr l))) c)' % (x, n, q)
    elif k == 3:
        yield '(do (set! %s (tree/new)) (dotimes (i %d) (set! %s (:keyword (cat "%s-" (rem (* i 7919) %d))) (list i))) (:length %s))' % (x, n, x, w, n if n % 7919 else n + 1, x), n
        chk = '(let ((c 0)) (dotimes (i %d) (when (= (car (ref %s (:keyword (cat "%s-" (rem (* i 7919) %d))))) i) (set! c (+ c 1)))) c)' % (n, x, w, n)
    elif k == 4:
        yield '(do (set! %s (buffer/allocate %d)) (set! %s (:alloc Array %d)) (dotimes (i %d) (set! %s i (if (zero? (rem i 2)) (:u8 %s) ((fn (j) (fn () (+ j %d))) i))) (set! (:u8 %s) i (rem i 251))) (:length %s))' % (y, n, x, n, n, x, y, q, y, x), n
        chk = '(let ((c 0)) (dotimes (i %d) (when (if (zero? (rem i 2)) (= (ref (ref %s i) i) (rem i 251)) (= ((ref %s i)) (+ i %d))) (set! c (+ c 1)))) c)' % (n, x, x, q)
    else:
        yield '(do (set! %s (eval-in (environment*) (car (read (cat "(fn (n) (let ((a (:alloc Array %d))) " (join (map (range %d) (fn (i) (cat "(set! a " i " \\"%s" i "\\")")) ) " ") " a))"))))) (:type-name %s))' % (x, n, n, w, x), S(':lambda')
        chk = '(let ((c 0) (r (%s 1))) (dotimes (i %d) (when (= (ref r i) (cat "%s" i)) (set! c (+ c 1)))) c)' % (x, n, w)
    yield '(do (churn 3) %s)' % chk, n
    yield chk, n
    yield '(do (set! %s (list %s)) (churn 2) (set! %s (car %s)) %s)' % (x, x, x, x, chk), n

def u_tall(R, g):
    # long chains of one thing in another
    x, f = g('x'), g('f'); k = R.randrange(7); n = edge(R, 30, 128, 256, 400, 1000); q = R.randrange(1, 9)
    if k == 0:
        yield '(do (set! %s %d) (dotimes (i %d) (set! %s (list %s))) 1)' % (x, q, n, x, x), 1
        yield '(do (churn 3) (let ((v %s) (c 0)) (while (= (:type-name v) :pair) (set! c (+ c 1)) (set! v (car v))) (list c v)))' % x, [n, q]
    elif k == 1:
        yield '(do (set! %s %d) (dotimes (i %d) (set! %s (if (zero? (rem i 3)) (array/new i %s) (if (= 1 (rem i 3)) { :v %s } (cons %s i))))) 1)' % (x, q, n, x, x, x, x), 1
        yield '(do (churn 3) (let ((v %s) (c 0) (t #nil)) (while (not (= (:type-name v) :int)) (set! c (+ c 1)) (set! t (:type-name v)) (set! v (if (= t :array) (ref v 1) (if (= t :tree) (ref v :v) (car v))))) (list c v)))' % x, [n, q]
    elif k == 2:
        yield '(do (set! %s (fn (n acc) (if (zero? n) (fn () acc) ((fn (m) (%s (- n 1) (fn () (+ 1 (acc))))) (list n))))) (set! %s (%s %d (fn () %d))) 1)' % (f, f, x, f, n, q), 1
        yield '(do (churn 3) ((%s)))' % x, n + q
    elif k == 3:
        yield '(do (set! %s (fn (n) (if (zero? n) (do (churn 3) %d) (+ (:length (cat "a" n)) (car (list (%s (- n 1)) (cat n))))))) 1)' % (f, q, f), 1
        yield '(%s %d)' % (f, n), q + sum(1 + len(str(i)) for i in range(1, n + 1))
    elif k == 4:
        n = min(n, 400)
        yield '(do (set! %s (fn (n) (if (zero? n) (do (churn 3) (throw (list :deep %d))) (let ((s (cat "h" n))) (try (fn (e) (throw (list :deep (+ (cadr e) (:length s))))) (list s (%s (- n 1)) s)))))) 1)' % (f, q, f), 1
        yield '(try (fn (e) (churn 2) (list (car e) (cadr e))) (%s %d))' % (f, n), [S(':deep'), q + sum(1 + len(str(i)) for i in range(1, n + 1))]
    elif k == 5:
        yield '(do (set! %s (fn (n) (if (zero? n) #nil (let ((b (buffer/allocate 2)) (r (%s (- n 1)))) (set! (:u8 b) 0 (rem n 100)) (when (zero? (rem n 50)) (churn 1)) (cons (:u8 b) r))))) (set! %s (%s %d)) (:length %s))' % (f, f, x, f, n, x), n
        yield '(do (churn 3) (let ((s 0)) (map %s (fn (v) (set! s (+ s (ref v 0))))) s))' % x, sum(i % 100 for i in range(1, n + 1))
    else:
        n = min(n, 250)
        yield '(do (set! %s #nil) (set! %s (fn (n) (if (zero? n) (churn 2) (let ((l (map (range 2) (fn (i) (cat n "-" i))))) (%s (- n 1)) (set! %s (cons l %s)))))) (%s %d) (:length %s))' % (x, f, f, x, x, f, n, x), n
        yield '(do (churn 3) (car %s))' % x, ['%d-0' % n, '%d-1' % n]
UNITS['wide'] = u_wide
UNITS['tall'] = u_tall

def u_floats(R, g):
    # numbers of every size, kept and printed later
    x = g('x'); n = R.choice([1, 2, 5, 20])
    es = [R.choice([R.randrange(-20, 100), R.randrange(70, 1023), R.randrange(-1074, -10), 79, 80, 83, 1023]) for _ in range(n)]
    t = lambda e, q: re.sub(r'(\.\d+?)0+$', r'\1', '%f' % (q * 2.0 ** e))
    qs = [R.choice([1, -1, 1]) for _ in es]
    yield '(do (set! %s (list %s)) (:length %s))' % (x, ' '.join('(* %d.0 (pow 2.0 %d))' % (q, e) for e, q in zip(es, qs)), x), n
    yield '(do (churn 2) (map %s (fn (v) (cat v))))' % x, [S(json.dumps(t(e, q))) for e, q in zip(es, qs)]
UNITS['floats'] = u_floats

LISTREF = "(defn list-ref* (i l) (if (zero? i) (car l) (list-ref* (- i 1) (cdr l))))\n"

WRAPS = [
    lambda c: c, lambda c: c,
    lambda c: '((fn (x y) x) %s (churn 1))' % c,
    lambda c: '(ident (do (churn 1) %s))' % c,
    lambda c: '(let ((tmp (churn 1))) %s)' % c,
    lambda c: '(try (fn (e) (list :unexpected e)) %s)' % c,
    lambda c: '(try (fn (e) %s) (churn 1) (throw :x))' % c,
    lambda c: '(cadr (list (churn 1) %s (churn 1)))' % c,
    lambda c: '(car (cdr (cons (churn 1) (cons %s #nil))))' % c,
    lambda c: '(deep 3 (fn () %s))' % c,
    lambda c: '(let ((r #nil)) (dotimes (i 1) (set! r %s)) (churn 1) r)' % c,
    lambda c: '(ref (array/new 1 %s (churn 1)) 1)' % c,
    lambda c: '(ref { :a (churn 1) :v %s :z (churn 1) } :v)' % c,
    lambda c: '((fn (v) (def r %s) (churn 2) (return r) 5) 1)' % c,
    lambda c: '(if %s %s %s)' % ('(list 1)', c, '(churn 1)'),
    lambda c: '(apply ident (list %s))' % c,
    lambda c: '(do (def k %s) ((fn () (churn 1) k)))' % c,
]

def gen_units(R, n, kinds=None):
    kinds = kinds or sorted(UNITS)
    return [{'u': i, 'k': R.choice(kinds), 's': R.randrange(1 << 30), 'w': R.random() < .7} for i in range(n)]

def gen_order(R, units, length):
    """An interleaving of the units' phases; every unit gets its phases in order."""
    o = []
    for x in units:
        cnt = len(list(UNITS[x['k']](random.Random(x['s']), lambda n: n)))
        o += [(x['u'])] * cnt
    # random interleaving, keeping some runs of the same unit together
    R.shuffle(o)
    return o[:length]

def expand(case):
    """case: {'units': [...], 'order': [unit ids]} -> (globals, [(id, phase, code, expected text or None)])"""
    it, gl = {}, []
    for x in case['units']:
        R = random.Random(x['s'])
        def g(n, i=x['u']):
            v = 'u%d-%s' % (i, n)
            if v not in gl: gl.append(v)
            return v
        it[x['u']] = (iter(UNITS[x['k']](R, g)), random.Random(x['s'] ^ 0x5bd1e995), x)
    out = []
    for p, u in enumerate(case['order']):
        if u not in it: continue
        gen, RW, x = it[u]
        try: code, exp = next(gen)
        except StopIteration: continue
        if x.get('w'): code = RW.choice(WRAPS)(code)
        t = ext(exp)
        out.append((u, p, code, None if '*' in t else t))
    return gl, out

def gdef(g):
    # what is called is compiled as a call only if it is a procedure by then
    return '(def %s %s)' % (g, '(fn () #nil)' if g.split('-')[1] in ('f', 'mk', 'h') else '#nil')

def script(case):
    """One source file: all phases compiled first, then run in order."""
    gl, ph = expand(case)
    s = PRELUDE + LISTREF
    s += ''.join(gdef(g) + '\n' for g in gl)
    for i, (u, p, code, exp) in enumerate(ph):
        s += '(defn phase-%d () %s)\n' % (i, code)
    s += '(println "BEGIN")\n'
    for i in range(len(ph)): s += '(show (phase-%d))\n' % i
    s += '(println "END")\n'
    return s, ph

def exprs(case):
    """The same as separate expressions, each compiled just before it runs."""
    gl, ph = expand(case)
    a = [PRELUDE + LISTREF + ' '.join(gdef(g) for g in gl) + '(println "BEGIN")']
    a += ['(show %s)' % code for (u, p, code, exp) in ph]
    a.append('(println "END")')
    return a, ph

def mismatch(out, ph):
    """Compare an output with the phases' expected values: None or a description."""
    try: lines = out.decode('latin-1').split('\r\n')
    except Exception as e: return str(e)
    if lines[0] != 'BEGIN': return 'the program did not start: ' + lines[0][:300]
    for i, (u, p, code, exp) in enumerate(ph):
        if i + 1 >= len(lines): return 'the program ended before phase %d: %s' % (i, code[:300])
        if exp is not None and lines[i+1] != exp:
            return 'phase %d: %s\nshould give %s\nbut gave    %s' % (i, code[:600], exp[:300], lines[i+1][:300])
    if lines[len(ph)+1:] != ['END', '']: return 'trailing output: ' + repr(lines[len(ph)+1:])[:300]
    return None
