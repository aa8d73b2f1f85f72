"""Schedules of collections, relative to a window of collection points."""

def gen(R, budget=36):
    """A schedule as JSON; positions are millionths of the window."""
    k = R.randrange(10)
    if k < 3: return {'k': 'at', 'v': sorted(R.randrange(1000000) for _ in range(R.randrange(1, budget)))}
    if k < 6: return {'k': 'run', 'v': [R.randrange(1000000), R.randrange(4, budget)]}
    if k < 8: return {'k': 'every', 'v': [R.choice([1, 2, 3, 5, 7, 13, 40]), R.randrange(1000000), budget]}
    if k < 9: return {'k': 'multi', 'v': [[R.randrange(1000000), R.randrange(1, 8)] for _ in range(R.randrange(2, 6))]}
    return {'k': 'spread', 'v': R.randrange(8, budget)}

def lines(s, lo, hi):
    """Scenario lines for a schedule in the window [lo, hi)."""
    n = max(1, hi - lo)
    pos = lambda f: lo + f * n // 1000000
    k, v = s['k'], s['v']
    if k == 'at': return ['gcat ' + ' '.join(str(x) for x in sorted(set(pos(f) for f in v)))] if v else []
    if k == 'run': return ['gcrange %d %d' % (pos(v[0]), pos(v[0]) + v[1])]
    if k == 'every': return ['gcat ' + ' '.join(str(pos(v[1]) + i * max(1, v[0])) for i in range(v[2]))] if v[2] else []
    if k == 'multi': return ['gcrange %d %d' % (pos(a), pos(a) + b) for a, b in v]
    if k == 'spread': return ['gcat ' + ' '.join(str(lo + n * i // max(1, v)) for i in range(v))] if v else []
    if k == 'abs': return ['gcat ' + ' '.join(str(x) for x in v)] if v else []
    raise ValueError(k)
