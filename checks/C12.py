"""C12: running out of memory never yields a wrong result."""
import re
import nj, netsim, gcsched
import exprgen as X
import wild
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C12'
LEVEL = 'exploration'
RULE = ('case = a seeded program (random expressions of all types, or steps using files, commands, the network, modules, the reader, images, ports and deep calls; as expressions, as script or as REPL input) run '
        'once without and several times with one to four failing allocations, single or lasting, placed over the whole run including the start; or a program filling one of the heaps with live data; every printed '
        'result compared with the run without failures; non-trivial when an allocation failed or a heap filled up; distinct by case')
ASSUMPTIONS = ['an exception may be any: its type is not compared', 'expressions given with -x report their exception and do not end the runtime']
NOTE = 'Sampled programs and failure points against the same program without failures; every byte allocated by runtime and stubs of libc goes through the failing allocator.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['exception', 'ended', 'handled', 'startup', 'script', 'repl', 'lasting', 'exhausted', 'io-step', 'deep', 'survived', 'by-place']

def budget(tier): return 300 if tier == 'quick' else 25000

STEPS = ['(slurp "data")', '(slurp/buffer "data")', '(list (spit "out" (cat "abc" "def")) (slurp "out"))', '(popen "cmd")', '(do (import (get) :net/http) (ref (get "http://h/x") :body))',
         '(do (import (hash) :crypto/md5) (hash "some text"))', '(do (import (serialize) :serialization/json) (serialize (list 1 "a" #t)))', '(do (import (rng) :random) (:int (:new rng 5) 1000))',
         '(deep 300 (fn () 5))', '(deep 3000 (fn () 6))', '(length-of (many 5000))', '(with-string-port p (dotimes (x 30) (:write p (cat "line" x "\\n"))))', '(ls "dir")', '(file/stat "data")', '(cwd)',
         '(do (import (answer) "mod") answer)', '(read (cat "(1 #m0102 \\"" "text" "\\" ##(1 2))"))', '(map (range 40) (fn (x) (:symbol (cat "dyn" x))))', '(do (defclass Q (defn new (self a) { :prototype* self :a a }) (defn get (self) self.a)) (:get (:new Q 4)))',
         '(catch-it (fn () (throw (list :mine 1 2))))', '(catch-it (fn () (deep 100 (fn () (throw :deep)))))', '(read-line)', '(let ((l #nil)) (dotimes (i 2000) (set! l (cons i l))) (:length l))',
         '(let ((b (buffer/allocate 1))) (dotimes (i 40) (:length! b (* (+ 1 i) 50))) (:length b))', '(let ((a (:alloc Array 1))) (dotimes (i 40) (:length! a (* (+ 1 i) 50)) (set! a 0 i)) (list (ref a 0) (:length a)))',
         '(let ((t (tree/new))) (dotimes (i 60) (set! t (:keyword (cat "k" i)) i)) (list (:length t) (ref t :k7)))', "(eval-in (environment*) '(do (defmacro twice (x) (list 'list x x)) (twice 3)))",
         '(let ((f (file/open-output* "h" :replace))) (file/write* f "12345") (file/flush* f) (file/close* f) (slurp "h"))', '(string/write (image/deserialize (image/serialize (list 1 "x" #m01 ##(2) (fn (a) a)))))',
         '((image/deserialize (image/serialize (fn (a) (list a "lit")))) 3)', '(:port (:new Object2 3))']
STEPS = STEPS[:-1]
FALLIBLE = {'(slurp "data")', '(popen "cmd")', '(ls "dir")', '(do (import (get) :net/http) (ref (get "http://h/x") :body))', '(cwd)', '(file/stat "data")', '(read-line)'}
PRE = nj.PRE + r'''
(defn deep (n f) (if (zero? n) (f) (+ 0 (deep (- n 1) f))))
(defn many (n) (def l #nil) (dotimes (i n) (set! l (cons (list i) l))) l)
(defn length-of (l) (:length l))
(defn catch-it (f) (try (fn (e) (list :caught (car e))) (f)))
'''
LONG = {'pair': '(cons i #nil)', 'array': '(array/new i)', 'closure': '(let ((q i)) (fn () q))', 'tree': '(tree/new :a i)', 'buffer': '(buffer/allocate 3)', 'view': '(:u8 (buffer/allocate 2))', 'symbol': '(:symbol (cat "s" i))',
        'string': '(cat "x" i)', 'code': "(eval-in (environment*) '(fn (a) (+ a 1)))", 'keyword': '(:keyword (cat "k" i))', 'read': '(read "(a \\"b\\" ##(1 2))")', 'image': '(image/deserialize img)'}
CHECK = {'pair': '(= (car x) i)', 'array': '(= (ref x 0) i)', 'closure': '(= (x) i)', 'tree': '(= (ref x :a) i)', 'buffer': '(= (:length x) 3)', 'view': '(= (:length x) 2)', 'symbol': '(= (:string x) (cat "s" i))', 'string': '(= x (cat "x" i))',
         'code': '(= (x 2) 3)', 'keyword': '(= (:string x) (cat "k" i))', 'read': '(= (:length x) 1)', 'image': '(= (car x) 1)'}
SIZE = {'pair': 262144, 'array': 16384, 'closure': 131072, 'tree': 32768, 'buffer': 32768, 'view': 16384, 'symbol': 16384, 'string': 32768, 'code': 16384, 'keyword': 16384, 'read': 16384, 'image': 16384}

ID_OF = re.compile(r'(?<=#<buffer-view) [0-9a-f]+(?=>)')
UNFIT = ('ls ', 'file/', 'rm', 'mkdir', 'val->id', 'fn (x)', 'resolves', '/int')    # what tells of the environment

def gen(R, i, tier):
    x = R.random()
    if x < .05:
        return {'k': 'exhaust', 't': R.choice(sorted(LONG)), 'handled': R.random() < .5, 'asan': False}
    k = R.choice(['x', 'x', 'script', 'script', 'repl'])
    n = R.randrange(2, 9)
    st = []
    for _ in range(n):
        if R.random() < .35: st.append(R.choice(STEPS) if R.random() < .6 else '(catch-it (fn () %s))' % R.choice(STEPS))
        elif R.random() < .25:
            c = wild.call(R)
            while any(f in c for f in UNFIT): c = wild.call(R)
            st.append('(catch-it (fn () %s))' % c)
        else: st.append(R.choice([X.num, X.string, X.lst, X.arr, X.buf, X.any_])(R, 3))
    runs = []
    for _ in range(R.choice([3, 4, 6])):
        r = {'oom': [[R.randrange(1000000), R.random() < .12] for _ in range(R.choice([1, 1, 1, 2, 4]))], 'at': R.choice(['all', 'site', 'site', 'site', 'steps', 'steps', 'steps', 'start'])}
        if R.random() < .3: r['gc'] = gcsched.gen(R, 14)
        runs.append(r)
    return {'k': k, 'st': st, 'runs': runs, 'asan': R.random() < .15}

LINES = ('"a line of input"', '"another"', '#nil')

def env_lines(s):
    s.file('/sim/data', b'contents of the file\n' * 40).dir('/sim/dir').file('/sim/dir/a', b'1').file('/sim/dir/bb', b'2').file('/sim/mod.nuj', b'(def answer (list 42 "x"))\n(export answer answer)\n')
    for _ in range(9): s.add('proc', 0, (b'output of the command\n' * 300).hex())
    s.add('host', b'h'.hex(), '4:10.0.0.1')
    resp = b'HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n\r\nthe body of the response'
    for _ in range(9): s.add('srv', '10.0.0.1', 80, 'accept', b'\r\n\r\n'.hex(), 0, 1, resp.hex(), 9, 40)
    return s

def scen(case):
    if case['k'] == 'x':
        s = nj.exprs(PRE, *['(R %d (fn () %s))' % (j, e) for j, e in enumerate(case['st'])])
        s.stdin(0, b'a line of input\nanother\n')
    elif case['k'] == 'script':
        src = PRE + '\n' + '\n'.join('(print (cat "=%d " (string/write %s) "\\n"))' % (j, e) for j, e in enumerate(case['st'])) + '\n'
        s = Scenario().args('nujel', 'm.nuj').file('/sim/m.nuj', src.encode()).stdin(0, b'a line of input\nanother\n')
    else:
        # every form on one line, as typed into the small REPL
        src = ' '.join(PRE.split('\n')).replace('  ', ' ') + '\n' + ''.join('(R %d (fn () %s))\n' % (j, e) for j, e in enumerate(case['st']))
        s = Scenario().args('nujel', '-r').stdin(0, src.encode())
    return env_lines(s).add('loglevel 2')

def execute(case, env, o):
    w = env.world(case.get('asan', False))
    if case['k'] == 'exhaust': return exhaust(case, w, o)
    if case['k'] not in ('x', 'script', 'repl') or not case['st']: raise Invalid()
    if case['k'] == 'repl' and any('\n' in e or 'read-line' in e for e in case['st']): case = dict(case, k='x')
    base = None
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl = []
        if x:
            total = base.head['mallocs']; m0 = int(outs[0][3])
            lo, hi = {'all': (0, total), 'start': (0, m0), 'steps': (max(0, m0 - 200), total), 'site': (max(0, m0 - 200), total)}[x['at']]
            if x['at'] == 'site':
                # every place that allocates is as likely as any other, however often it does
                sites = [y for y in ([int(a) for a in l.split(' ')[1:] if int(a) >= lo] for l in base.log.split('\n') if l.startswith('site ')) if y]
            for f, on in x['oom']:
                n = lo + (hi - lo) * f // 1000000
                if x['at'] == 'site': y = sites[f * len(sites) // 1000000]; n = y[f % len(y)]
                fl.append('fault malloc %d 12' % (-n - 1 if on else n))
            for l in fl: s.add(l)
            if x['at'] == 'site': o.probe('by-place')
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        else: s.add('sites 1')
        r = o.see(w.run(s))
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        res = nj.parse(r.out)
        if x is None:
            base = r; exp = {a: b for _, a, b in res}
            outs = [l.split(' ') for l in r.log.split('\n') if l.startswith('out ')]
            if r.kind != 'exit' or r.status or len(exp) != len(case['st']) or any('(:exc' in v[:6] for v in exp.values()) or not outs: raise Invalid()
            continue
        oom = 'FAULT malloc' in r.log
        if oom: o.nontrivial = True
        if any(on for f, on in x['oom']): o.probe('lasting')
        if x['at'] == 'start': o.probe('startup')
        if case['k'] != 'x': o.probe(case['k'])
        if r.kind != 'exit': o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if not oom:
            if r.status or {a: b for _, a, b in res} != exp: o.violation('ending', '%sno allocation failed, but: %s %r' % (what, r.status, r.out[-300:])); return
            continue
        if r.status: o.probe('ended')
        order = [a for _, a, _ in res]
        if order != sorted(set(order)): o.violation('order', '%sresults %s' % (what, order)); return
        failed = False
        for _, a, v in res:
            e = case['st'][a]
            if e in STEPS or e.startswith('(catch-it'): o.probe('io-step')
            if 'deep' in e: o.probe('deep')
            if v == exp[a] or ID_OF.sub('', v) == ID_OF.sub('', exp[a]): continue
            if case['k'] != 'script' and v.startswith('(:exc '): o.probe('exception'); failed = True; continue
            if e.startswith('(catch-it') and v.startswith('(:caught '): o.probe('handled'); failed = True; continue
            if e.startswith('(catch-it (fn () '): e = e[17:-2]
            if e in FALLIBLE and v in ('#nil', '#f'): failed = True; continue
            if e.startswith('(list (spit') and v.startswith('(#f '): failed = True; continue
            # what an earlier step lost, a later one may miss
            if 'read' in e and 'line' in e and v in LINES: failed = True; continue
            if failed and e in ('(read-line)', '(popen "cmd")'): continue
            o.violation('value', '%sstep %d %s gave %s instead of %s' % (what, a, e, v[:300], exp[a][:300])); return
        if not r.status:
            missing = [a for a in exp if a not in order]
            if missing and (case['k'] == 'script' or not reported(r)):
                o.violation('silent', '%ssteps %s are missing, but the status is 0: %r' % (what, missing, r.out[-300:])); return
            o.probe('survived')
        elif case['k'] == 'script' or True:
            # what came out before the end is complete up to some point
            if order != list(range(len(order))) and not reported(r): o.violation('silent', '%sonly steps %s printed something' % (what, order)); return
    o.key = repr((case['k'], case['st'], case['runs']))

def reported(r):
    """Some line that is neither a result nor a prompt: an error was shown."""
    for l in r.out.split(b'\n'):
        while l[:2] == b'> ' or l[:4] == b'... ': l = l[2:] if l[:2] == b'> ' else l[4:]
        if l.strip() and l[:1] != b'=' and l.strip() not in (b'#nil', b'#t', b'Adios, cowboy...'): return True
    return bool(r.err.strip())

def exhaust(case, w, o):
    t = case['t']
    if t not in LONG: raise Invalid()
    step = max(64, SIZE[t] // 64)
    body = '(while #t (set! live (cons %s live)) (inc! i) (when (zero? (rem i %d)) (print (cat "=" i " " (chk) "\\n"))))' % (LONG[t], step)
    pre = '(def img (image/serialize (list 1 "a" ##(2))))(def live #nil)(def i 0)(defn chk () (def x (car live)) (def i (- i 1)) %s)' % CHECK[t]
    if case['handled']: s = nj.exprs(pre, '(try (fn (e) (print "CAUGHT\\n")) %s)' % body, '(do (def n i) (set! live #nil) (print (cat "=AFTER " (> n %d) "\\n")))' % step)
    else: s = Scenario().args('nujel', 'm.nuj').file('/sim/m.nuj', (pre + body).encode())
    s.add('loglevel 2').add('gccheck 0').add('maxsteps 400000000')
    r = o.see(w.run(s))
    what = 'filling the heap with live %ss: ' % t
    if always_bad(r, o, what): return
    if r.kind != 'exit': o.violation('ending', '%sended by %s %s after %r' % (what, r.kind, r.status, r.out[-200:])); return
    want = 0
    for l in r.out.split(b'\n'):
        if not l.startswith(b'='): continue
        if l.startswith(b'=AFTER'): continue
        want += step
        if l != b'=%d #t' % want: o.violation('value', '%sprinted %r instead of =%d #t' % (what, l, want)); return
    if want < SIZE[t] // 8: o.violation('ending', '%sended after %d objects' % (what, want)); return
    if b'CAUGHT' in r.out:
        o.probe('handled')
        if r.status or b'=AFTER #t' not in r.out: o.violation('ending', '%swent on wrongly after the exception: %r' % (what, r.out[-200:])); return
    elif not r.status: o.violation('silent', '%sended with status 0: %r' % (what, r.out[-200:])); return
    o.probe('exhausted'); o.nontrivial = True
    o.key = repr(case)
