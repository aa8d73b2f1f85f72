"""Random expressions without side effects or handlers, by type."""

WORDS = ['a', 'bc', 'hello', 'x,y,z', 'a-b-c', 'Some Words here', '12', 'q' * 40, 'é']

def lit_s(R): return '"%s"' % R.choice(WORDS)

def num(R, d):
    if d <= 0 or R.random() < .2: return str(R.randrange(-50, 1000))
    e = lambda: num(R, d - 1)
    k = R.randrange(14)
    if k < 3: return '(%s %s %s)' % (R.choice(['+', '-', '*']), e(), e())
    if k == 3: return '(:length %s)' % R.choice([string, lst, arr, buf])(R, d - 1)
    if k == 4: return '(let ((x%d %s)) (+ x%d %s))' % (d, e(), d, e())
    if k == 5: return '((fn (a b) (- a b)) %s %s)' % (e(), e())
    if k == 6: return '(if %s %s %s)' % (boolean(R, d - 1), e(), e())
    if k == 7: return '(reduce %s + 0)' % nums(R, d - 1)
    if k == 8: return '(do (def t%d (tree/new :a %s :b %s)) (set! t%d :c %s) (+ (ref t%d :%s) (ref t%d :b)))' % (d, e(), e(), d, e(), d, R.choice('abc'), d)
    if k == 9: return '(ref (array/new %s %s %s) %d)' % (e(), e(), e(), R.randrange(3))
    if k == 10: return '(popcount %s)' % e()
    if k == 11: return '(do (def s%d 0) (dotimes (i%d %d) (set! s%d (+ s%d i%d))) s%d)' % (d, d, R.choice([3, 10, 40]), d, d, d, d)
    if k == 12: return '(ref (:%s %s) 0)' % (R.choice(['u8', 's8']), buf(R, d - 1))
    return '(:length (image/deserialize (image/serialize %s)))' % R.choice([lst, arr])(R, d - 1)

def boolean(R, d):
    if d <= 0: return R.choice(['#t', '#f'])
    k = R.randrange(5)
    if k == 0: return '(< %s %s)' % (num(R, d - 1), num(R, d - 1))
    if k == 1: return '(= %s %s)' % (string(R, d - 1), string(R, d - 1))
    if k == 2: return '(and %s %s)' % (boolean(R, d - 1), boolean(R, d - 1))
    if k == 3: return '(nil? %s)' % lst(R, d - 1)
    return '(not %s)' % boolean(R, d - 1)

def nums(R, d): return '(list %s)' % ' '.join(num(R, d - 1) for _ in range(R.randrange(1, 5)))

def string(R, d):
    if d <= 0 or R.random() < .15: return lit_s(R)
    e = lambda: string(R, d - 1)
    k = R.randrange(9)
    if k < 2: return '(cat %s %s)' % (e(), any_(R, d - 1))
    if k == 2: return '(%s %s)' % (R.choice(['upper-case', 'lower-case', 'trim']), e())
    if k == 3: return '(join (split %s ",") "-")' % e()
    if k == 4: return '(string/write %s)' % any_(R, d - 1)
    if k == 5: return '(:cut (cat %s "abcdef") 0 %d)' % (e(), R.randrange(1, 6))
    if k == 6: return '(buffer->string #m%s)' % bytes(R.randrange(32, 126) for _ in range(R.randrange(1, 20))).hex().upper()
    if k == 7: return '(join (map %s (fn (q) (cat q "x"))) ":")' % nums(R, d - 1)
    return '(:string (:symbol (cat "sym" %s)))' % num(R, d - 1)

def lst(R, d):
    if d <= 0 or R.random() < .1: return '(list %s)' % ' '.join(any_(R, 0) for _ in range(R.randrange(1, 5)))
    e = lambda: lst(R, d - 1)
    k = R.randrange(12)
    if k == 0: return '(list %s)' % ' '.join(any_(R, d - 1) for _ in range(R.randrange(1, 5)))
    if k == 1: return '(map %s (fn (q) (list q %s)))' % (e(), any_(R, d - 2))
    if k == 2: return '(reverse %s)' % e()
    if k == 3: return '(append %s %s)' % (e(), e())
    if k == 4: return '(sort %s)' % nums(R, d - 1)
    if k == 5: return '(filter (range %d) (fn (q) (< q %s)))' % (R.choice([3, 9, 30]), num(R, d - 1))
    if k == 6: return '(cons %s %s)' % (any_(R, d - 1), e())
    if k == 7: return '(read "(a \\"b\\" ##(1 2) (q . r)) :k 1.5")'
    if k == 8: return '(split %s "-")' % string(R, d - 1)
    if k == 9: return '(image/deserialize (image/serialize %s))' % e()
    if k == 10: return '(range %d)' % R.choice([2, 7, 50])
    return "(eval-in (environment*) '(list %s %s))" % (any_(R, d - 1), any_(R, d - 2))

def arr(R, d):
    if d <= 0 or R.random() < .2: return '(array/new %s)' % ' '.join(any_(R, 0) for _ in range(R.randrange(1, 6)))
    k = R.randrange(4)
    if k == 0: return '(array/new %s %s)' % (any_(R, d - 1), any_(R, d - 1))
    if k == 1: return '(do (def a%d (:alloc Array %d)) (set! a%d 1 %s) (:length! a%d %d) a%d)' % (d, R.randrange(2, 30), d, any_(R, d - 1), d, R.randrange(2, 90), d)
    if k == 2: return '(image/deserialize (image/serialize %s))' % arr(R, d - 1)
    return '(apply array/new %s)' % lst(R, d - 1)

def buf(R, d):
    h = '#m' + bytes(R.randrange(256) for _ in range(R.randrange(1, 12))).hex().upper()
    if d <= 0: return h
    k = R.randrange(4)
    if k == 0: return '(:clone %s)' % buf(R, d - 1)
    if k == 1: return '(do (def b%d (buffer/allocate %d)) (:length! b%d %d) (set! (:u8 b%d) 0 7) b%d)' % (d, R.randrange(1, 9), d, R.choice([9, 100, 3000]), d, d)
    if k == 2: return '(:cut %s 0 1)' % buf(R, d - 1)
    return h

def any_(R, d):
    if d <= 0: return R.choice([lambda: str(R.randrange(100)), lambda: lit_s(R), lambda: '#t', lambda: ':kw', lambda: '2.5', lambda: "'sy", lambda: '#nil'])()
    return R.choice([num, num, string, string, lst, lst, arr, boolean])(R, d)
