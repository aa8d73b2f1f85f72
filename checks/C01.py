"""C01: collections never change what a program does."""
import random
from world import Scenario
import proggen as G, gcsched
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C01'
LEVEL = 'exploration'
RULE = ('case = generated program (2-9 interleaved objects of 24 kinds with a computed result for every step, wrapped in random calling contexts; '
        'or a standard-library workload) run once without collections and then under several collection schedules (single points, dense windows, strides, '
        'spread) placed over its execution or compilation; non-trivial when at least one injected collection ran after the program began; distinct by program and schedules')
ASSUMPTIONS = ['freed objects are overwritten by the simulator, so a use after free shows as rubbish',
               'collections are offered exactly at the calls of lGarbageCollectIfNecessary in lib/vm.c']
NOTE = ('Sampled: every generated program is run under several collection schedules against a schedule-free run and a computed result; every collection is '
        'checked against an independent traversal of the heap. Trusts the simulator, that traversal, and that collections happen only where the hook is.')
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['gc-in-execution', 'gc-in-compilation', 'library-workload', 'expression-mode', 'asan']

LIB = [
    ['-x', '(import (hash) :crypto/md5) (println (hash "%s"))'],
    ['-x', '(import (hash) :crypto/crc32) (println (hash "%s"))'],
    ['-x', '(import (hash) :crypto/crc32c) (println (hash "%s"))'],
    ['-x', '(import (hash) :crypto/adler32) (println (hash "%s"))'],
    ['-x', '(import (serialize) :serialization/json) (println (serialize (list 1 "%s" :a #t 2.5 ##(1 2))))'],
    ['-x', '(import (pp-nujel) :pretty/nujel) (println (pp-nujel "(defn f (a) \\"%s\\" (+ 1 a) [x y] #nil ; c\\n)"))'],
    ['-x', '(import (Random) :random) (def r (:new Random 5)) (println (map (range 10) (fn (i) (:int r 100)))) "%s"'],
    ['-x', '(import (rainbow) :ansi) (println (rainbow "%s"))'],
    ['-x', '(println (string/write (compile (do (defn f (a) (when a (let ((b "%s")) (cat a b)))) (f 1)))))'],
    ['-x', '(println (string/write (macroexpand* (car (read "(cond ((= a 1) (doseq (x l) (print x))) (#t \\"%s\\"))")) (current-closure))))'],
    ['-x', '(println (string/write (read "(a [1 2] {:b \\"%s\\"} #m0aFF ##(1 (2)) @(:q 1) \'x `(y ~z) 1.5 #xff)")))'],
    ['-x', '(println (sort (map (:keys (current-closure)) :string)) "%s")'],
    ['-x', '(def b (buffer/allocate 64)) (doseq (v (list (:u8 b) (:s16 b) (:u32 b) (:f64 b))) (dotimes (i (:length v)) (set! v i i))) (println (string/write b) "%s")'],
]

def budget(tier): return 240 if tier == 'quick' else 12000

def gen(R, i, tier):
    asan = R.random() < .15
    if R.random() < .12:
        return {'lib': R.randrange(len(LIB)), 'w': ''.join(R.choice('abcdefgh') for _ in range(R.randrange(0, 40))),
                'scheds': [gcsched.gen(R, 30) for _ in range(2)], 'asan': asan}
    n = R.randrange(2, 10)
    us = G.gen_units(R, n)
    return {'mode': R.choice(['script', 'script', 'script', 'exprs']), 'units': us, 'order': G.gen_order(R, us, 60),
            'scheds': [dict(gcsched.gen(R), w=('c' if R.random() < .12 else 'x')) for _ in range(3 if asan else 5)], 'asan': asan}

def execute(case, env, o):
    asan = case.get('asan', False)
    if 'lib' in case:
        args = [a.replace('%s', case['w']) for a in LIB[case['lib']]]
        mk = lambda: Scenario().args('nujel', *args)
        o.probe('library-workload'); ph = None
    else:
        if not case['units'] or not case['order']: raise Invalid()
        if case['mode'] == 'script':
            src, ph = G.script(case)
            mk = lambda: Scenario().args('nujel', 'm.nuj').file('/sim/m.nuj', src)
        else:
            a, ph = G.exprs(case)
            o.probe('expression-mode')
            mk = lambda: Scenario().args('nujel', *sum((['-x', x] for x in a), []))
    if asan: o.probe('asan')
    base = o.see(env.world().run(mk().add('loglevel 2').add('gccheck 0')))
    if always_bad(base, o, 'without injected collections: '): return
    if base.kind != 'exit' or base.status != 0:
        o.violation('baseline', 'without injected collections the program ended by %s %s' % (base.kind, base.status)); return
    if ph is not None:
        m = G.mismatch(base.out, ph)
        if m: o.violation('result', 'without injected collections: ' + m); return
    outs = [l.split(' ') for l in base.log.split('\n') if l.startswith('out ')]
    end = base.head['safepoints']
    begin = int(outs[0][2]) if outs and ph is not None else 0
    if asan:
        o.see(env.world(True).run(mk()))
    for s in case['scheds']:
        comp = s.get('w') == 'c'
        lo, hi = (0, begin or end) if comp else (begin, end)
        sc = mk().add('gcpoison 1')
        for l in gcsched.lines(s, lo, hi): sc.lines.append(l)
        r = o.see(env.world(asan).run(sc))
        if r.head['gcs'] and not comp: o.probe('gc-in-execution', r.head['gcs']); o.nontrivial = True
        if r.head['gcs'] and comp: o.probe('gc-in-compilation', r.head['gcs'])
        w = 'with the collections %s in [%d, %d): ' % (gcsched.lines(s, lo, hi), lo, hi)
        if always_bad(r, o, w): return
        if r.kind != base.kind or r.status != base.status:
            o.violation('ending', '%sended by %s %s instead of %s %s' % (w, r.kind, r.status, base.kind, base.status)); return
        if r.out != base.out or r.err != base.err:
            m = (ph is not None and G.mismatch(r.out, ph)) or 'output differs:\n%r\nwithout:\n%r' % (r.out[-600:], base.out[-600:])
            o.violation('result', w + m); return
    o.key = repr(sorted(case.items(), key=str))
    if ph is None: o.nontrivial = o.nontrivial or True

def shrink(case):
    for k in range(len(case['scheds'])):
        if len(case['scheds']) > 1: yield dict(case, scheds=[case['scheds'][k]])
    if 'units' in case:
        for u in case['units']:
            if len(case['units']) > 1:
                yield dict(case, units=[x for x in case['units'] if x is not u], order=[x for x in case['order'] if x != u['u']])
        n = len(case['order'])
        k = n // 2
        while k >= 1:
            for s in range(0, n, k): yield dict(case, order=case['order'][:s] + case['order'][s+k:])
            k //= 2
        for i, u in enumerate(case['units']):
            if u['w']: yield dict(case, units=case['units'][:i] + [dict(u, w=False)] + case['units'][i+1:])
    s = case['scheds'][0]
    if len(case['scheds']) == 1:
        v = s['v']
        if s['k'] == 'at':
            n = len(v); k = n // 2
            while k >= 1:
                for q in range(0, n, k):
                    if len(v[:q] + v[q+k:]): yield dict(case, scheds=[dict(s, v=v[:q] + v[q+k:])])
                k //= 2
        elif s['k'] == 'run' and v[1] > 1:
            yield dict(case, scheds=[dict(s, v=[v[0], v[1] // 2])]); yield dict(case, scheds=[dict(s, v=[v[0], v[1] - 1])])
        elif s['k'] == 'every' and v[2] > 1:
            yield dict(case, scheds=[dict(s, v=[v[0], v[1], v[2] // 2])]); yield dict(case, scheds=[dict(s, v=[v[0], v[1], v[2] - 1])])
        elif s['k'] == 'multi' and len(v) > 1:
            for q in range(len(v)): yield dict(case, scheds=[dict(s, v=v[:q] + v[q+1:])])
        elif s['k'] == 'spread' and v > 1: yield dict(case, scheds=[dict(s, v=v // 2)])
    if case.get('asan'): yield dict(case, asan=False)
