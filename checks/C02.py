"""C02: unreachable memory is reclaimed, exactly once, along with what it owns."""
import nj, gcsched
import proggen as G
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C02'
LEVEL = 'exploration'
RULE = ('case = either a loop over 2-7 seeded garbage makers (all types, resizing, failing and caught operations, images, commands, files, evaluated code) repeated 14 times with a collection after every round, '
        'under further seeded collections, failing allocations and failing system calls; or a long run that allocates many times the size of a heap while a bounded set stays live and only natural '
        'collections happen; or a generated program of many interleaved objects. Distinct by case; non-trivial when collections freed something')
ASSUMPTIONS = ['the live set is what an independent traversal reaches from class table, native functions, running code, call stack and value stack',
               'heaps are used to at most 60% by live data in the long runs']
NOTE = 'Sampled; at every collection the heaps, free lists, accounting and native memory are compared with an independent traversal, and the live set of a repeating program must stop growing.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['steady', 'long', 'program', 'alloc-failed', 'system-failed', 'bytes-steady', 'many-at-once']

def budget(tier): return 420 if tier == 'quick' else 15000

PRE = r'''
(defn T (f) (try (fn (e) (list :exc (car e))) (f)))
(defclass Thing
  (defn new (self a) { :prototype* self :a a })
  (defn get (self) self.a))
(defn deep (n f) (if (zero? n) (f) (+ 0 (deep (- n 1) f))))
(def keep #nil)
(def img (image/serialize (list 1 "two" ##(3 #m0405) { :six 7.5 :s 'sym })))
(def fimg (image/serialize (fn (a) (list a "const" '(1 2)))))
'''
# name: (expression using i (the round) and k (a seeded number), scenario lines)
MAKERS = {
 'list': '(map (range 20) (fn (x) (list x (cat "s" x))))',
 'arrays': '(let ((a (:alloc Array (+ 1 (rem k 40))))) (set! a 0 (list i)) (:length! a (+ 1 (rem (+ i k) 30))) (:length! a 0) (:length! a 3) a)',
 'arraynew': '(array/new i (array/new k (:alloc Array 3)) "x")',
 'buffers': '(let ((b (buffer/allocate (rem k 50)))) (:length! b (+ 1 (rem (* k 7) 5000))) (:cut b 0 1) (buffer->string b) (:u8 b))',
 'shrink': '(let ((b (buffer/allocate 100))) (T (fn () (:length! b 0))) (T (fn () (:length! b 3000))) (list (:s16 b) (:clone b)))',
 'views': '(map (list :u8 :s8 :u16 :s32 :f32 :f64) (fn (m) (let ((b (buffer/allocate 64))) (m b))))',
 'strings': '(let ((s (cat "a" i))) (list (cat s s k) (:cut s 0 1) (upper-case s) (split "a,b,c" ",") (join (list s s) "+") (fmt "{i}-{k}")))',
 'symbols': '(map (range 9) (fn (x) (:symbol (cat "dyn-" i "-" k "-" x))))',
 'keywords': '(:keyword (cat "kw" (rem i 3) "-" k))',
 'gensyms': '(list (gensym) (gensym))',
 'closures': '(let ((n i)) (list (fn () n) (fn (a) (set! n a)) ((fn (q) (fn () (+ q n))) k)))',
 'trees': '(let ((t { :a i })) (dotimes (x 12) (set! t (:keyword (cat "tk" x)) (list x))) (list (:keys t) (:values t) (:clone t)))',
 'objects': '(map (range 5) (fn (x) (:get (:new Thing (list x)))))',
 'throw': '(T (fn () (list 1 2 (throw (list :my i)))))',
 'throwdeep': '(T (fn () (deep (+ 3 (rem k 60)) (fn () (list (cat "a" "b") (throw :my))))))',
 'rethrow': '(T (fn () (try (fn (e) (list 1 (throw e))) (list (buffer/allocate 3) (throw (cat "x" i))))))',
 'typeerr': '(list (T (fn () (+ 1 "a"))) (T (fn () (:nope i))) (T (fn () (ref ##(1) 4))) (T (fn () (list 1 2 (nope i)))) (T (fn () (buffer/allocate -1))) (T (fn () (:alloc Array -4))))',
 'readok': '(read "(a #m0102 \\"str\\" [x {:b 1}] ##(1 (2)) @(:q 1.5) \'x `(y ~z) #xff :kw)")',
 'readerr': '(map (list "(a" "(a \\"b" "##(1 (2" "@(:a #m01 " "{:a" ")" "(1 #m0" "\\"a\\\\" "[1 [2" "#m012" "##(\\"a\\" #z)") (fn (s) (T (fn () (read s)))))',
 'image': '(list (image/deserialize img) ((image/deserialize fimg) i))',
 'serialize': '(list (image/serialize { :a (list i "x" #m010203) :b (fn (x) (+ x i)) }) (:length (image/serialize (list i k))))',

 'badimage': '(append (map (range 5) (fn (x) (T (fn () (image/deserialize (:cut img 0 x)))))) (list (T (fn () (image/deserialize #m01020304050607080910)))))',
 'eval': '(eval-in (environment*) (list (quote do) (list (quote def) (quote q) k) (quote (fn (a) (list a q "lit" \'(1 2))))))',
 'evalerr': '(list (T (fn () (eval-in (environment*) (quote (nope5 1))))) (T (fn () (eval-in 5 1))) (T (fn () (eval-in (environment*) (quote (let (a 1))))))  )',
 'macro': "(eval-in (environment*) '(do (defmacro mm (a) (list 'list a \"x\")) (fn (b) (list b 1))))",
 'compile': '(list (read/single "(defn f (a) (when a (+ a 1)))") (macroexpand* (car (read "(cond ((= a 1) 2) (:otherwise 3))")) (current-closure)))',
 'port': '(with-string-port p (dotimes (x 9) (:write p (cat "line" x "\\n"))))',
 'write': '(list (string/write (list i "x" ##(1) #m01 { :a 1 })) (string/display k))',
 'slurp': '(list (T (fn () (slurp "data"))) (T (fn () (slurp/buffer "data"))))',
 'slurperr': '(list (T (fn () (slurp "missing"))) (T (fn () (slurp "dir"))))',
 'spit': '(list (T (fn () (spit "out" (cat "abc" i)))) (T (fn () (spit "nodir/x" "y"))))',
 'popen': '(let ((r (T (fn () (popen "cmd"))))) (cdr r))',
 'files': '(list (T (fn () (ls "."))) (T (fn () (ls "missing"))) (T (fn () (file/stat "data"))) (T (fn () (cwd))))',
 'resizeerr': '(list (T (fn () (:length! (buffer/allocate 4) -1))) (T (fn () (:length! #m0102 9))) (T (fn () (:length! (:alloc Array 3) -2))))',
 'bufops': '(let ((b (buffer/allocate 32)) (v (:u8 (buffer/allocate 8)))) (set! v 3 (rem i 100)) (T (fn () (buffer/copy b (cat "abc") 2 3))) (T (fn () (buffer/copy b v 30 30))) (list (:cut b 3 9) (T (fn () (:buffer v)))))',
 'meta': '(let ((f (fn (a) a))) (:meta! f :note (list i k)) (:meta f :note))',
 'vec': '(sort (list 3 1 2))',
 'json': '(do (import (serialize) :serialization/json) (T (fn () (serialize (list 1 "a" k)))))',
 'hash': '(do (import (hash) :crypto/md5) (hash (cat "x" k)))',
 'rand': '(do (import (rng) :random) (:int (:new rng k) 100))',
 'keepone': '(do (set! keep (list i (buffer/allocate 10) (fn () i))) 1)',
 'environ': '(environment* (def a (list 1 2 3)) (defn b () a))',
 'methods': '(do (:add-method Tree :zap (fn (self) (list k i))) (:zap { :a 1 }))',
 'bigstack': '(T (fn () (deep (* 40 (+ 1 (rem k 20))) (fn () 1))))',
 'module': '(T (fn () (module/load :no/such/module)))',
 'sock': '(T (fn () (socket/connect "nohost" 80)))',
 'bytecode': '(let ((a (array/new 1 2 k 4 5))) (list (T (fn () (:bytecode-array a a))) (T (fn () (:bytecode-array (array/new 1 2 :x i) a))) (T (fn () (:bytecode-array a 5))) (T (fn () (:bytecode-array (array/new) (array/new)))) (T (fn () (:array (:code (fn (x) (list x i))))))))',
 'immviews': '(let ((b (buffer/allocate 16))) (list (:u8 b #t) (:u32 b #t) (T (fn () (set! (:s8 b #t) 0 1))) (T (fn () (:length! (:s8 b #t) 99)))))',
 'refreads': '(let ((h (T (fn () (file/open-input* "data"))))) (T (fn () (file/read* h #m0102030405 4 0))) (T (fn () (file/read* h "abcdef" 4))) (T (fn () (file/read* h (:u8 (buffer/allocate 9) #t) 4))) (T (fn () (file/read* h -1))) (T (fn () (file/read* h 0))) (T (fn () (file/read* h 7))) (T (fn () (file/write* h #m0102 99))) (T (fn () (file/close* h))))',
 'handles': '(let ((h (T (fn () (file/open-input* "data"))))) (T (fn () (file/read* h (buffer/allocate 4) 4 0))) (T (fn () (file/read* h (buffer/allocate 2) 9 0))) (T (fn () (file/close* h))))',
}
# everything C03 knows to be refused
import importlib
FAILS = importlib.import_module('C03').FAILS
for z in range(0, len(FAILS), 9):
    MAKERS['refused%02d' % (z // 9)] = '(list %s)' % ' '.join('(T (fn () %s))' % x for x in FAILS[z:z+9])
# live set : how to make one object, how often, garbage : one object, how often in all
LONG = {
 'pair': ('(cons i #nil)', 262144), 'array': ('(array/new i)', 16384), 'closure': ('(fn () i)', 131072), 'tree': ('{ :a i }', 32768),
 'buffer': ('(buffer/allocate 3)', 32768), 'view': ('(:u8 (buffer/allocate 2))', 16384), 'symbol': ('(:symbol (cat "s" i))', 16384), 'string': ('(cat "x" i)', 32768),
 'code': ("(eval-in (environment*) '(fn (a) (+ a 1)))", 16384), 'nodes': ('{ :a 1 :b i :c 3 :d 4 }', 32768), 'exc': ('(try (fn (e) e) (throw i))', 262144),
 'image': ('(image/deserialize img)', 16384), 'keyword': ('(:keyword (cat "k" i))', 16384), 'gensym': ('(gensym)', 16384), 'read': ('(read "(a \\"b\\" ##(1 2))")', 16384),
}
# many values at once, by a single native that cannot be interrupted by a collection; how many of the scarcest type
BULK = {
 'bigread': ('(read bigsrc)', 262144, 3000), 'bigimage': ('(image/deserialize bigimg)', 16384, 250), 'bigkeys': ('(:keys bigtree)', 262144, 700), 'bigvalues': ('(:values bigtree)', 262144, 700), 'bigclone': ('(:clone bigtree)', 262144, 700),
 'bigstrings': ('(read bigstr)', 32768, 400), 'bigsymbols': ('(read (ref bigsyms (rem i 55)))', 16384, 300), 'bigls': ('(ls "/sim/bigdir")', 32768, 300), 'bigtrees': ('(image/deserialize bigtri)', 32768, 250), 'bigviews': ('(image/deserialize bigvwi)', 16384, 250)}
BULKPRE = r'''(def bigsrc (string/write (range 3000))) (def bigimg (image/serialize (map (range 250) (fn (x) (array/new x)))))
(def bigtree (tree/new)) (dotimes (i 700) (set! bigtree (:keyword (cat "key" (rem (* i 389) 700))) i))
(def bigstr (string/write (map (range 400) (fn (x) (cat "s" x))))) (def bigsyms (:alloc Array 55)) (dotimes (i 55) (set! bigsyms i (cat (map (range 300) (fn (q) (cat "s" i "-" q " "))))))
(def bigtri (image/serialize (map (range 250) (fn (x) (let ((t (tree/new))) (set! t :a x) t))))) (def bigvwi (image/serialize (map (range 250) (fn (x) (:u8 (buffer/allocate 2))))))'''

def gen(R, i, tier):
    x = R.random()
    if x < .72:
        ms = R.sample(sorted(MAKERS), R.randrange(2, 8))
        runs = []
        for _ in range(3):
            r = {}
            if R.random() < .6: r['gc'] = gcsched.gen(R, 30)
            if R.random() < .5: r['oom'] = [R.randrange(1000000) for _ in range(R.choice([1, 1, 2, 4]))]
            if R.random() < .4: r['f'] = nj.gen_faults(R, {'read': [5, 4], 'open': [13, 24], 'write': [28, 5], 'close': [5], 'pread': [5], 'popen': [24], 'opendir': [13], 'readdir': [5], 'seek': [5], 'stat': [13]})
            runs.append(r)
        return {'k': 'steady', 'ms': [[m, R.randrange(1000)] for m in ms], 'runs': runs, 'asan': R.random() < .12}
    if x < .82:
        t = R.choice(sorted(LONG))
        u = R.choice(sorted(LONG) + sorted(BULK) * 2)
        return {'k': 'long', 'live': t, 'frac': R.choice([0, 5, 20, 45, 60]), 'garbage': u, 'times': R.choice([110, 130, 220]), 'chunk': R.choice([1, 17, 1000])}
    us = G.gen_units(R, R.randrange(2, 8))
    return {'k': 'program', 'units': us, 'order': G.gen_order(R, us, 40), 'gc': [gcsched.gen(R, 30) for _ in range(2)]}

ROUNDS = 14
def steady(case):
    if not case['ms']: raise Invalid()
    body = ''
    for m, k in case['ms']:
        if m not in MAKERS: raise Invalid()
        body += '(T (fn () (let ((k %d)) %s)))\n' % (k, MAKERS[m])
    fs = ''.join('(defn mk%d (i) (let ((k %d)) %s))\n' % (z, k, MAKERS[m]) for z, (m, k) in enumerate(case['ms']))
    go = '(dotimes (i %d) %s (print "R\\n") (T (fn () (dotimes (q 3) q))))' % (ROUNDS, ' '.join('(T (fn () (mk%d i)))' % z for z in range(len(case['ms']))))
    s = Scenario().args('nujel', '-x', PRE, *sum((['-x', f] for f in fs.split('\n(defn') if False), []), '-x', fs, '-x', go, '-x', '(print "END\\n")')
    s.add('loglevel 2').add('gcout 1').add('gcexact 1').file('/sim/data', b'0123456789' * 30).dir('/sim/dir').file('/sim/dir/a', b'')
    for _ in range(ROUNDS * 2 + 4): s.add('proc', 0, (b'output of the command\n' * 300).hex())
    return s

def per_round(r):
    """[(reached, native bytes)] at the collection after every round."""
    L, n, pend = [], 0, False
    for l in r.log.split('\n'):
        if l.startswith('out '): pend = True
        elif l.startswith('gc ') and pend:
            w = l.split(' '); L.append((int(w[1]), int(w[2]))); pend = False
    return L

def execute(case, env, o):
    w = env.world(case.get('asan', False))
    if case['k'] == 'steady':
        base = None
        for k, x in enumerate([{}] + case['runs']):
            s = steady(case)
            fl = []
            if base is not None:
                fl = nj.place(x.get('f', []), n)
                for f in x.get('oom', []): fl.append('fault malloc %d 12' % (span[0] + (span[1] - span[0]) * f // 1000000))
                for l in fl: s.add(l)
                if 'gc' in x:
                    for l in gcsched.lines(x['gc'], first, base.head['safepoints']): s.add(l)
            r = o.see(w.run(s))
            what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
            if always_bad(r, o, what): return
            if base is None:
                base = r; n = nj.calls(r)
                ms = [l.split(' ') for l in r.log.split('\n') if l.startswith('out ')]
                if len(ms) < ROUNDS: o.violation('ending', '%sended after %d rounds: %r %s' % (what, len(ms), r.out[-500:], r.status)); return
                span = (int(ms[0][3]), int(ms[ROUNDS - 1][3])); first = int(ms[0][2])
            oom = 'FAULT malloc' in r.log
            if oom: o.probe('alloc-failed')
            elif 'FAULT' in r.log: o.probe('system-failed')
            if r.kind != 'exit' or (r.status and not oom): o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
            if r.head['freed']: o.nontrivial = True
            if not oom and r.out != b'R\n' * ROUNDS + b'END\n': o.violation('ending', '%sprinted %r' % (what, r.out[-500:])); return
            pr = per_round(r)
            if oom or len(pr) < ROUNDS or r.head['freed'] == 0: continue
            a, b = pr[5], pr[ROUNDS - 1]
            if b[0] > a[0] and pr[9][0] > a[0]: o.violation('growth', '%sthe live set grows from round to round: %s' % (what, [x[0] for x in pr])); return
            o.probe('steady')
            if pr[5:ROUNDS] == [pr[5]] * (ROUNDS - 5): o.probe('bytes-steady')
            if all(pr[q + 1][1] > pr[q][1] for q in range(5, ROUNDS - 1)): o.violation('growth', '%snative memory grows from round to round: %s' % (what, [x[1] for x in pr])); return
        o.key = repr(case)
        return
    if case['k'] == 'long':
        bulk = case['garbage'] in BULK
        if case['live'] not in LONG or (case['garbage'] not in LONG and not bulk) or not 0 <= case['frac'] <= 60 or not 1 <= case['times'] <= 300 or case['chunk'] < 1: raise Invalid()
        lx, lmax = LONG[case['live']]
        gx, gmax = (LONG if not bulk else BULK)[case['garbage']][:2]
        # what the image itself uses stays below a third of each heap
        nl = min(lmax * case['frac'] // 100, 40000) if lmax > 20000 else lmax * case['frac'] // 200
        ng = min(gmax * case['times'] // 100, 60000 if gmax > 40000 else 45000)
        if bulk: ng = gmax * case['times'] // 60 // BULK[case['garbage']][2]
        if case['garbage'] in ('code', 'read', 'image'): ng = min(ng, 3000)
        if case['live'] in ('code', 'read', 'image', 'nodes', 'tree', 'exc'): nl = min(nl, 1500)
        s = Scenario().args('nujel', '-x', (BULKPRE if bulk else '') + '(def img (image/serialize (list 1 "a" ##(2))))(def live #nil)(defn mk (i) %s)(defn gb (i) %s)' % (lx, gx),
                            '-x', '(dotimes (i %d) (set! live (cons (mk i) live)))' % nl, '-x', '(dotimes (i %d) (gb i))' % ng, '-x', '(print (cat (:length live) "\\n"))', '-x', '(set! live #nil)', '-x',
                            '(dotimes (i %d) (set! live (cons (mk i) live)))' % nl, '-x', '(dotimes (i %d) (gb i))' % (ng // 2), '-x', '(print (cat (:length live) " END\\n"))')
        if bulk:
            o.probe('many-at-once')
            s.dir('/sim/bigdir')
            for q in range(300 if 'bigls' == case['garbage'] else 1): s.file('/sim/bigdir/file%d' % q, b'')
        s.add('loglevel 2').add('gcexact 1').add('maxsteps 100000000')
        r = o.see(w.run(s))
        what = '%d live %ss, %d times a garbage %s: ' % (nl, case['live'], ng, case['garbage'])
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status or r.out != b'%d\n%d END\n' % (nl, nl): o.violation('exhausted', '%sended by %s %s after printing %r, %d collections' % (what, r.kind, r.status, r.out[-200:], r.head['gcs'])); return
        if r.head['gcs']: o.probe('long'); o.nontrivial = True
        o.key = repr(case)
        return
    if case['k'] == 'program':
        if not case['units'] or not case['order']: raise Invalid()
        src, ph = G.script(case)
        base = o.see(w.run(Scenario().args('nujel', 'm.nuj').file('/sim/m.nuj', src).add('gccheck 0').add('loglevel 2')))
        outs = [l.split(' ') for l in base.log.split('\n') if l.startswith('out ')]
        for g in case['gc']:
            s = Scenario().args('nujel', 'm.nuj').file('/sim/m.nuj', src).add('gcexact 1')
            for l in gcsched.lines(g, int(outs[0][2]) if outs else 0, base.head['safepoints']): s.add(l)
            s.add('gcat %d' % (base.head['safepoints'] - 3))
            r = o.see(w.run(s))
            if always_bad(r, o, 'with collections %s: ' % g): return
            if r.head['freed']: o.nontrivial = True; o.probe('program')
        o.key = repr(case)
        return
    raise Invalid()
