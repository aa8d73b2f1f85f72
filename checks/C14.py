"""C14: time and randomness depend only on the clock and the seed."""
import re
import nj, gcsched
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C14'
LEVEL = 'exploration'
RULE = ('case = a seeded clock (start, rate, jumps of the wall and the monotonic clock, sub-millisecond phase, time zone, time taken by computing) and 5-40 operations (reading the clocks, measuring a computation, '
        'creating, seeding and drawing from several generators), or a session of the guessing game; run with two memory fill patterns and with injected collections; '
        'every value is compared with the clock readings and a model of the generator; non-trivial when the clock jumped, is outside 1970-2038 or a generator was used; distinct by clock and operations')
ASSUMPTIONS = ['the monotonic clock never goes back', 'bounds for drawing are positive', 'the sequence belonging to a seed is the one the present generator gives']
NOTE = 'Sampled clocks, seeds and operation sequences against the simulated clock and an executable model of the generator.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['wall-jump-back', 'wall-jump-forward', 'suspend', 'before-1970', 'after-2038', 'long-uptime', 'unseeded', 'negative-seed', 'large-bound', 'profile', 'elapsed', 'guessed', 'game-lost', 'game-eof', 'interleaved']

M = 1 << 64
def wrap(x): x &= M - 1; return x - M if x >> 63 else x

def budget(tier): return 800 if tier == 'quick' else 40000

class Gen:
    def __init__(self, seed): self.s = seed
    def rng(self):
        self.s = wrap(wrap(self.s * 1103515245) + 12345)
        return (self.s & 0xFFFF) << 16 | (self.s >> 16) & 0xFFFF
    def int(self, m): return self.rng() if m is None else self.rng() % m

def num(R):
    k = R.randrange(6)
    if k == 0: return R.choice([0, 1, -1, 2, 255, 256, 65535, 65536])
    if k == 1: return R.randrange(1 << 32)
    if k == 2: return R.choice([1, -1]) * (1 << R.randrange(58)) + R.randrange(-2, 3)
    if k == 3: return -R.randrange(1 << 40)
    return R.randrange(100000)

def bound(R):
    k = R.randrange(6)
    if k == 0: return None
    if k == 1: return R.choice([1, 2, 6, 10, 100])
    if k == 2: return (1 << R.randrange(1, 50)) + R.randrange(-1, 2)
    if k == 3: return 0xFFFFFFFF + R.randrange(-3, 4)
    return R.randrange(1, 5000)

def gen(R, i, tier):
    mono = R.choice([0, 5, 1000, 999999, 86400000, (1 << 31) - 40, (1 << 32) - 40, 50 * 86400000, 400 * 86400000, (1 << 41) + 12345]) + R.randrange(3) * R.randrange(1000)
    wall = R.choice([0, -1, -5000, 1600000000123, 1600000000999, ((1 << 31) - 3) * 1000, (1 << 32) * 1000 - 2000, 4102444800000, 253402300799000, -2000000000000]) + R.randrange(1000)
    case = {'mono': mono, 'wall': wall, 'tick': R.choice([0, 1, 1, 3, 40, 999, 1000, 1001, 60000]), 'ns': R.choice([0, 0, 1, 499999, 500000, 999999]),
            'work': R.choice([0, 1, 7, 50, 500]), 'tz': R.choice([None, None, 'UTC', 'EST5EDT', 'XYZ-14', 'ABC11:30']), 'jumps': []}
    for _ in range(R.choice([0, 1, 2, 4])):
        case['jumps'].append([R.randrange(30), R.choice([-1, 1]) * R.choice([0, 1, 999, 1000, 3600000, 31536000000, 3000000000000]), R.choice([0, 0, 1, 1000, 86400000, 5000000000])])
    case['gc'] = gcsched.gen(R, 14)
    case['fill'] = R.randrange(256)
    case['asan'] = R.random() < .08
    if R.random() < .12:
        case['guess'] = [R.choice([R.randrange(101), R.randrange(101), 50, 0, 100, -5, 1000]) for _ in range(R.choice([0, 3, 9, 10, 12]))]
        if R.random() < .6: case['guess'].append('hit')
        return case
    ops, n = [], 0
    for _ in range(R.randrange(5, 41)):
        k = R.choice(['time', 'time', 'ms', 'ms', 'both', 'elapsed', 'profile', 'new', 'new', 'seed', 'rng', 'int', 'int', 'many', 'dice'])
        if k in ('elapsed', 'profile'): ops.append([k, R.choice([0, 1, 5, 30, 200])])
        elif k == 'new':
            ops.append([k, R.choice([None, num(R), num(R), num(R)])]); n += 1
        elif k in ('seed', 'rng', 'int', 'many', 'dice'):
            if not n: continue
            g = R.randrange(n)
            if k == 'seed': ops.append([k, g, num(R)])
            elif k == 'rng': ops.append([k, g])
            elif k == 'int': ops.append([k, g, bound(R)])
            elif k == 'many': ops.append([k, g, R.choice([2, 5, 50]), bound(R)])
            else: ops.append([k, g, R.randrange(n), bound(R)])
        else: ops.append([k])
    return dict(case, ops=ops or [['time'], ['ms']])

PRE = '\n(import (rng) :random)\n(def gens (:alloc Array 48))\n(defn W (n) (def i 0) (while (< i n) (set! i (+ i 1))) i)'

def lit(x): return '#nil' if x is None else str(x)

def step(op, n):
    k = op[0]
    G = lambda i: '(ref gens %d)' % i
    if k == 'time': return '(time)'
    if k == 'ms': return '(time/milliseconds)'
    if k == 'both': return '(let ((a (time)) (b (time/milliseconds)) (c (time))) (list a b c))'
    if k == 'elapsed': return '(let ((a (time/milliseconds))) (W %d) (- (time/milliseconds) a))' % op[1]
    if k == 'profile': return '(profile (W %d))' % op[1]
    if k == 'new': return '(let ((g (:new rng%s))) (set! (ref gens %d) g) (ref g :seed))' % ('' if op[1] is None else ' %d' % op[1], n)
    if k == 'seed': return '(do (:seed! %s %d) (ref %s :seed))' % (G(op[1]), op[2], G(op[1]))
    if k == 'rng': return '(:rng! %s)' % G(op[1])
    if k == 'int': return '(:int %s%s)' % (G(op[1]), '' if op[2] is None else ' %d' % op[2])
    if k == 'many': return '(let ((i 0) (l #nil)) (while (< i %d) (set! l (cons (:int %s %s) l)) (set! i (+ i 1))) l)' % (op[2], G(op[1]), lit(op[3]))
    if k == 'dice': return '(let ((a (:int %s %s)) (b (:int %s %s))) (list a b (ref %s :seed)))' % (G(op[1]), lit(op[3]), G(op[2]), lit(op[3]), G(op[1]))
    raise Invalid()

def env(s, case):
    s.add('loglevel 3').add('clock %d %d' % (case['mono'], case['wall'] - case['mono'])).add('tick %d' % case['tick']).add('nsoff %d' % case['ns']).add('work %d' % case['work'])
    if case['tz']: s.add('tz ' + case['tz'])
    for i, w, m in case['jumps']:
        s.add('jump %d %d %d' % (i, w, m))
    return s

def scen(case):
    n, xs = 0, []
    for op in case['ops']:
        xs.append(step(op, n))
        n += op[0] == 'new'
    if n > 48: raise Invalid()
    return env(nj.steps(xs, PRE), case)

def reading(l):
    w = l.split(' ')
    return (w[0], int(w[2]), int(w[4])) if len(w) == 5 and w[1] == 'mono' else None

def near(got, want, lo, hi):
    """got is the value of the clock at a reading, or, the readings not being as expected, at some time in between"""
    return lo <= got <= hi if want is None else got in want

def judge(case, r, o, what):
    res = nj.results(r)
    per, last = {}, {}
    for s, l, d in nj.timeline(r):
        x = reading(l)
        if not x: continue
        if x[0] == 'at': last[s] = x
        else: per.setdefault(s, []).append(x)
    took = [int(x) for x in re.findall(rb'^Took (-?\d+)ms\r?$', r.err, re.M)]
    gens, t, prev = [], 0, ('at', case['mono'], case['wall'])
    up = 1 if case['ns'] >= 500000 else 0
    for i, op in enumerate(case['ops']):
        v = res.get(i)
        w = '%sstep %d %s: ' % (what, i, step(op, len(gens)))
        if v is None: return w + 'gave no result'
        k, rd = op[0], per.get(i, [])
        end = last.get(i, rd[-1] if rd else prev)
        span = [prev] + rd + [end]
        prev = end
        def sec(n, m):
            if len(rd) == m: return {rd[n][2] // 1000}, 0, 0
            return None, min(x[2] for x in span) // 1000, max(x[2] for x in span) // 1000
        def ms(n, m):
            if len(rd) == m: return {rd[n][1], rd[n][1] + up}, 0, 0
            return None, min(x[1] for x in span), max(x[1] for x in span) + up
        def diff(m):
            if len(rd) == m:
                d = rd[1][1] - rd[0][1]
                return {d - up, d, d + up}, 0, 0
            return None, 0, span[-1][1] - span[0][1] + up
        if k in ('time', 'ms', 'elapsed'):
            if not re.fullmatch(r'-?\d+', v): return w + 'gave %s' % v
            x = sec(0, 1) if k == 'time' else ms(0, 1) if k == 'ms' else diff(2)
            if k == 'elapsed': o.probe('elapsed')
            if not near(int(v), *x): return w + 'gave %s, the clock says %s' % (v, x)
        elif k == 'both':
            m = re.fullmatch(r'\((-?\d+) (-?\d+) (-?\d+)\)', v)
            if not m: return w + 'gave %s' % v
            for y, x in zip(m.groups(), (sec(0, 3), ms(1, 3), sec(2, 3))):
                if not near(int(y), *x): return w + 'gave %s, the clock says %s instead of %s' % (v, x, y)
        elif k == 'profile':
            if t >= len(took): return w + 'reported no time'
            o.probe('profile')
            if not near(took[t], *diff(2)): return w + 'reported %d ms, the clock says %s' % (took[t], diff(2))
            t += 1
        elif k == 'new':
            if not re.fullmatch(r'-?\d+', v): return w + 'gave %s' % v
            if op[1] is None:
                o.probe('unseeded')
                if len(rd) == 2:
                    a = [x for x in rd]
                    x = {a[0][2] // 1000 ^ a[1][1] + j for j in (0, up)} | {a[1][2] // 1000 ^ a[0][1] + j for j in (0, up)}
                    if int(v) not in x: return w + 'gave the seed %s, the clock says %s' % (v, x)
                gens.append(Gen(int(v)))
            else:
                if op[1] < 0: o.probe('negative-seed')
                if int(v) != op[1]: return w + 'gave the seed %s' % v
                gens.append(Gen(op[1]))
        else:
            g = gens[op[1]]
            if k == 'seed': g.s = op[2]; x = str(op[2])
            elif k == 'rng': x = str(g.rng())
            elif k == 'int':
                if op[2] and op[2] > 1 << 32: o.probe('large-bound')
                x = str(g.int(op[2]))
            elif k == 'many': x = '(%s)' % ' '.join(reversed([str(g.int(op[3])) for _ in range(op[2])]))
            else:
                if op[1] != op[2]: o.probe('interleaved')
                a = g.int(op[3]); b = gens[op[2]].int(op[3])
                x = '(%d %d %d)' % (a, b, g.s)
            if v != x: return w + 'gave %s instead of %s' % (v[:300], x[:300])
    if t != len(took): return '%s%d measurements were reported, %d were made' % (what, len(took), t)

def game(case, env_, o):
    def run(lines, gc=None, sp=0, fill=None):
        s = env(nj.Scenario().args('nujel', '-m', 'games/guess'), case)
        s.stdin(0, ''.join('%d\n' % x for x in lines).encode())
        s.add('notty')
        if fill is not None: s.add('fill %d' % fill)
        if gc:
            for l in gcsched.lines(gc, 0, sp): s.add(l)
        return o.see(env_.world(case.get('asan', False)).run(s))
    r = run([])
    if always_bad(r, o): return
    rd = [x for x in map(reading, r.log.split('\n')) if x and x[0] != 'at']
    if len(rd) != 2: raise Invalid()
    up = 1 if case['ns'] >= 500000 else 0
    cand = {Gen(a // 1000 ^ m + j).int(100) for a, m in ((rd[0][2], rd[1][1]), (rd[1][2], rd[0][1])) for j in (0, up)}
    lines = [x for x in case['guess'] if x != 'hit' and x not in cand]
    ok = None
    for n in sorted(cand):
        L = lines + ([n] if 'hit' in case['guess'] and len(lines) < 10 else [])
        sp = 0
        for gc, fill in ((None, None), (case['gc'], case['fill'])):
            q = run(L, gc, sp, fill)
            if always_bad(q, o): return
            sp = q.head['safepoints']
            txt = re.sub(rb'\x1b\[[0-9;]*m', b'', q.out).decode('latin-1')
            want = ['Too low' if x < n else 'Too high' for x in L[:10] if x != n]
            have = re.findall(r'Too (?:low|high)', txt)
            end = 'you won' if n in L else 'Too bad' if len(L) >= 10 else 'Bye!'
            good = have == want and end in txt and q.kind == 'exit' and q.status == 0
            if good and end == 'you won' and 'with %d guesses left' % (10 - len(lines)) not in txt: good = False
            if not good: ok = 'with the number %d the game answered %s with %s (%s), ending by %s %s' % (n, L, have, txt[-60:], q.kind, q.status); break
        else:
            o.probe({'you won': 'guessed', 'Too bad': 'game-lost', 'Bye!': 'game-eof'}[end])
            ok = None; break
    if ok: o.violation('model', ok); return
    o.nontrivial = True
    o.key = repr((case['mono'], case['wall'], case['guess']))

def execute(case, env_, o):
    if any(m < 0 or i < 0 for i, w, m in case['jumps']): raise Invalid()
    if len(set(j[0] for j in case['jumps'])) != len(case['jumps']): case = dict(case, jumps=[j for k, j in enumerate(case['jumps']) if j[0] not in [x[0] for x in case['jumps'][:k]]])
    if case['mono'] < 0 or case['tick'] < 0 or case['ns'] < 0: raise Invalid()
    if 'guess' in case: return game(case, env_, o)
    n = 0
    for op in case['ops']:
        if op[0] in ('seed', 'rng', 'int', 'many', 'dice') and op[1] >= n or op[0] == 'dice' and op[2] >= n: raise Invalid()
        if op[0] == 'int' and op[2] is not None and op[2] <= 0 or op[0] in ('many', 'dice') and op[3] is not None and op[3] <= 0: raise Invalid()
        n += op[0] == 'new'
    if not case['ops'] or n > 48: raise Invalid()
    w = env_.world(case.get('asan', False))
    base = None
    for k in range(3):
        s = scen(case)
        if k == 1: s.add('fill %d' % case['fill'])
        if k == 2:
            for l in gcsched.lines(case['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = ('', 'with memory filled with %d: ' % case['fill'], 'with collections: ')[k]
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        m = judge(case, r, o, what)
        if m: o.violation('model', m); return
        if k == 0: base = r
        elif k == 1 and (r.out, r.err) != (base.out, base.err):
            o.violation('repeat', 'the same clock and seeds gave another result with memory filled with %d' % case['fill']); return
    J = [l.split(' ') for l in base.log.split('\n') if l.startswith('JUMP')]
    for _, _, a, b in J:
        if int(a) < 0: o.probe('wall-jump-back')
        if int(a) > 0: o.probe('wall-jump-forward')
        if int(b) > 0: o.probe('suspend')
    if case['wall'] < 0: o.probe('before-1970')
    if case['wall'] > 1 << 41: o.probe('after-2038')
    if case['mono'] >= (1 << 31) - 50: o.probe('long-uptime')
    if J or n or not 0 <= case['wall'] < (1 << 31) * 1000: o.nontrivial = True
    o.key = repr({k: case[k] for k in case if k not in ('gc', 'fill', 'asan')})

def shrink(case):
    for k in range(len(case['jumps'])): yield dict(case, jumps=case['jumps'][:k] + case['jumps'][k+1:])
    if 'ops' in case:
        n = len(case['ops'])
        for a in (n // 2, n // 4, 1):
            if a:
                for k in range(0, n, a): yield dict(case, ops=case['ops'][:k] + case['ops'][k+a:])
    else:
        for k in range(len(case['guess'])): yield dict(case, guess=case['guess'][:k] + case['guess'][k+1:])
    for k, v in (('work', 0), ('tick', 1), ('ns', 0), ('tz', None), ('asan', False), ('fill', 203), ('wall', 1600000000000), ('mono', 1000)):
        if case.get(k) != v: yield dict(case, **{k: v})
