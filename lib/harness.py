"""Seeded search over simulated runs: generate, run, judge, confirm, minimise, report.

A check module (checks/<id>.py) provides:
  ID, LEVEL, RULE, ASSUMPTIONS, REAL, STUB
  budget(tier) -> number of cases
  gen(rng, i, tier) -> case: a JSON value that decides everything about the case
  execute(case, env) -> Outcome
  shrink(case) -> iterator over strictly smaller candidate cases  (optional)
  findings -> list of known findings (optional)
"""
import hashlib, importlib, json, multiprocessing as mp, os, queue, random, subprocess, sys, time, traceback
from world import World, SimDied, BadScenario, build, ROOT

class Invalid(Exception):
    """The (shrunk) case does not make sense; it is not run."""

class Outcome:
    def __init__(self):
        self.bad = None         # (class, message)
        self.key = None         # what makes this case distinct
        self.nontrivial = False
        self.hash = hashlib.sha256()
        self.runs = 0
        self.faults = {}
        self.probes = {}
        self.simms = 0
        self.safepoints = self.gcs = self.checked = self.steps = 0
        self.kinds = {}
        self.states = set()
        self.sample = None
    def violation(self, cls, msg):
        if self.bad is None:
            self.bad = (cls, msg[:3000])
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n
    def see(self, r, asan_ok=False):
        """Account for one simulated run."""
        self.runs += 1
        h = r.head
        self.hash.update((h['hash'] + r.kind + str(r.status)).encode())
        self.hash.update(r.out); self.hash.update(r.err); self.hash.update(r.vfs.encode('latin-1'))
        self.simms += max(0, h['now'] - 1000000) if h['now'] else 0
        self.safepoints += h['safepoints']; self.gcs += h['gcs']; self.checked += h['gcChecked']; self.steps += h['steps']
        self.kinds[r.kind] = self.kinds.get(r.kind, 0) + 1
        self.states.add(h['hash'] + h['shapes'])
        if h['faults']:
            for l in r.log.split('\n'):
                if l.startswith('FAULT '):
                    w = l.split(' ')
                    k = w[1] if len(w) < 4 else '%s:%s' % (w[1], w[3])
                    self.faults[k] = self.faults.get(k, 0) + 1
                elif l.startswith('JUMP '):
                    self.faults['clock-jump'] = self.faults.get('clock-jump', 0) + 1
                elif l == 'refused':
                    self.faults['connection-refused'] = self.faults.get('connection-refused', 0) + 1
        if r.log.find('reset\n') >= 0:
            self.faults['connection-reset'] = self.faults.get('connection-reset', 0) + 1
        return r

# Ends of a run that are wrong whatever the workload was
def always_bad(r, o, what=''):
    if r.kind == 'oracle':
        o.violation('oracle', what + r.msg); return True
    if r.kind.startswith('signal') or r.kind.startswith('died') or r.kind == 'abort':
        o.violation('crash', '%sthe runtime died: %s %s %s' % (what, r.kind, r.status, r.asan[-1500:])); return True
    if r.kind == 'asan':
        o.violation('memory', what + summary(r.asan)); return True
    if r.kind == 'hang':
        o.violation('hang', what + 'the run did not end within its step bound'); return True
    return False

def summary(t):
    for l in t.split('\n'):
        if 'ERROR: AddressSanitizer' in l:
            i = t.find(l)
            fr = [x.strip() for x in t[i:].split('\n') if x.strip().startswith('#')][:8]
            return l.strip() + '\n' + '\n'.join(fr)
    return t[-1500:]

class Env:
    def __init__(self):
        self.w = {}
    def world(self, asan=False, cold=False):
        k = (asan, cold)
        if k not in self.w:
            self.w[k] = World(asan, cold)
        return self.w[k]
    def drop(self):
        for w in self.w.values(): w.close()
        self.w = {}

def rng_for(seed, pid, i):
    h = hashlib.sha256(('%d/%s/%d' % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))

def load(pid):
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    return importlib.import_module(pid)

def _execute(mod, case, env):
    o = Outcome()
    try:
        mod.execute(case, env, o)
    except Invalid:
        raise
    except BadScenario as e:
        raise Invalid(str(e))
    except SimDied as e:
        # the runtime does not even get to the point where runs start
        env.drop()
        o.violation('boot', str(e))
    except Exception:
        # what the runtime produced has not even the form of a right answer
        o.violation('form', traceback.format_exc()[-1500:])
    return o

def _worker(pid, tier, seed, lo, n, stride, deadline, q, stop):
    try:
        mod = load(pid)
        env = Env()
        redo = 0
        for i in range(lo, n, stride):
            if time.time() > deadline or stop.value:
                break
            case = mod.gen(rng_for(seed, pid, i), i, tier)
            # round-trip, so that what runs is what a replay file can hold
            case = json.loads(json.dumps(case))
            o = _execute(mod, case, env)
            det = None
            if o.bad or i % 23 == 0:
                # the same case again, now and then in a new server process
                if i % 46 == 0: env.drop()
                o2 = _execute(mod, case, env)
                redo += 1
                det = o2.hash.hexdigest() == o.hash.hexdigest() and (o2.bad and o2.bad[0]) == (o.bad and o.bad[0])
            q.put((i, o.bad, o.key, o.nontrivial, o.runs, o.faults, o.probes, o.simms,
                   (o.safepoints, o.gcs, o.checked, o.steps), o.kinds, list(o.states)[:200],
                   o.sample, det, case if (o.bad or i < 4 or det is False) else None, o.hash.hexdigest()))
            if o.bad:
                stop.value = 1
                break
        env.drop()
        q.put(None)
    except BaseException:
        q.put(('error', traceback.format_exc()))
        q.put(None)

# ---------------------------------------------------------------- minimising
def generic_shrink(case, path=()):
    """Smaller variants of a JSON case: drop list parts, then simplify values."""
    def at(c, p):
        for k in p: c = c[k]
        return c
    def put(p, v):
        c = json.loads(json.dumps(case))
        if not p: return v
        at(c, p[:-1])[p[-1]] = v
        return c
    def walk(p):
        v = at(case, p)
        if isinstance(v, list):
            n = len(v)
            k = n
            while k >= 1:
                for s in range(0, n, k):
                    yield put(p, v[:s] + v[s+k:])
                k //= 2
            for j in range(n):
                yield from walk(p + (j,))
        elif isinstance(v, dict):
            for k in v:
                if not str(k).startswith('_'):
                    yield from walk(p + (k,))
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1):
                if abs(c) < abs(v): yield put(p, c)
        elif isinstance(v, str) and len(v) > 1:
            yield put(p, v[:len(v)//2])
            yield put(p, v[len(v)//2:])
            if len(v) <= 64:
                for j in range(len(v)): yield put(p, v[:j] + v[j+1:])
    return walk(path)

def minimise(mod, case, cls, env, limit):
    end = time.time() + limit
    tries = 0
    progress = True
    sh = getattr(mod, 'shrink', generic_shrink)
    while progress and time.time() < end:
        progress = False
        for cand in sh(case):
            if time.time() > end: break
            if cand == case: continue
            tries += 1
            try:
                o = _execute(mod, cand, env)
            except Invalid:
                continue
            if o.bad and o.bad[0] == cls and cls != 'form':
                case = cand
                progress = True
                break
    return case, tries

def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    build()
    env = Env()
    o = _execute(mod, d['case'], env)
    env.drop()
    return d, o

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('seed %d property %s tier %s' % (seed, pid, tier)); sys.stdout.flush()
    mod = load(pid)
    build()
    tb = time.time()
    n = mod.budget(tier)
    if os.environ.get('SIM_CASES'): n = int(os.environ['SIM_CASES'])
    cap = float(os.environ.get('SIM_CAP', '150' if tier == 'quick' else '3300'))
    deadline = time.time() + cap
    nw = int(os.environ.get('SIM_WORKERS', str(min(8, os.cpu_count() or 4))))
    q = mp.Queue(); stop = mp.Value('i', 0)
    ps = [mp.Process(target=_worker, args=(pid, tier, seed, k, n, nw, deadline, q, stop)) for k in range(nw)]
    for p in ps: p.start()
    live = nw
    ev = dict(evals=0, runs=0, faults={}, probes={}, simms=0, sp=0, gcs=0, checked=0, steps=0, kinds={}, nondet=[], redo=0)
    keys, states, bads, samples, errors = set(), set(), [], [], []
    trace = hashlib.sha256(); hashes = {}
    while live:
        m = q.get()
        if m is None: live -= 1; continue
        if m[0] == 'error':
            errors.append(m[1]); stop.value = 1; continue
        i, bad, key, nt, runs, faults, probes, simms, ctr, kinds, st, sample, det, case, hx = m
        hashes[i] = hx
        ev['evals'] += 1; ev['runs'] += runs; ev['simms'] += simms
        ev['sp'] += ctr[0]; ev['gcs'] += ctr[1]; ev['checked'] += ctr[2]; ev['steps'] += ctr[3]
        for src, dst in ((faults, 'faults'), (probes, 'probes'), (kinds, 'kinds')):
            for k, v in src.items(): ev[dst][k] = ev[dst].get(k, 0) + v
        if nt and key is not None: keys.add(key)
        states.update(st)
        if det is not None: ev['redo'] += 1
        if det is False: ev['nondet'].append((i, case))
        if bad: bads.append((i, bad, case))
        if len(samples) < 3 and case is not None: samples.append(sample if sample is not None else case)
    for p in ps: p.join()
    if errors:
        print(errors[0]); print('ERROR: a worker of the check failed'); sys.exit(3)
    for i in sorted(hashes): trace.update(hashes[i].encode())
    # the known findings: each is run, and reported if it (still) fails as described
    kf = [f for f in known_findings() if f.get('property') == pid and f.get('state') == 'known']
    rc = 0
    env = Env()
    for f in kf:
        o = _execute(mod, json.load(open(os.path.join(ROOT, f['case'])))['case'], env)
        if o.bad and o.bad[0] == f['class']:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    viol = None; odd = None
    bads.sort(key=lambda b: b[0])
    for i, bad, case in bads[:4]:
        small, tries = minimise(mod, case, bad[0], env, float(os.environ.get('SIM_MIN', '45')))
        o = _execute(mod, small, env)
        if not (o.bad and o.bad[0] == bad[0]):
            small = case; o = _execute(mod, small, env)
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%d-%d.json' % (pid, seed, i))
        doc = {'property': pid, 'seed': seed, 'index': i, 'class': bad[0], 'message': o.bad and o.bad[1],
               'hash': o.hash.hexdigest(), 'minimise_tries': tries, 'case': small, 'original': case}
        json.dump(doc, open(path, 'w'), indent=1)
        env.drop()
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'replay.py'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            viol = (path, o.bad or bad); break
        odd = odd or 'case %d (%s) did not reproduce in a fresh process' % (i, bad)
        print(r.stdout.decode('latin-1')[-3000:])
    if ev['nondet'] and viol is None:
        i, case = ev['nondet'][0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        json.dump({'property': pid, 'case': case}, open(os.path.join(ROOT, 'replays', pid + '-nondet.json'), 'w'))
        odd = odd or 'case %d did not repeat exactly' % i
    if odd and viol is None:
        print('ERROR: ' + odd); sys.exit(5)
    env.drop()
    wall = time.time() - t0
    srch = max(0.001, time.time() - tb)
    evid = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
            'coverage': {
                'evaluations': ev['evals'], 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples or [None],
                'simulated_runs': ev['runs'], 'seeds_per_hour': int(ev['evals'] * 3600 / srch), 'runs_per_hour': int(ev['runs'] * 3600 / srch),
                'simulated_seconds': round(ev['simms'] / 1000.0, 3), 'simulated_calls_and_steps': ev['steps'],
                'safepoints_offered': ev['sp'], 'collections': ev['gcs'], 'collections_verified': ev['checked'],
                'faults_fired': dict(sorted(ev['faults'].items())), 'probes': dict(sorted(ev['probes'].items())),
                'run_ends': ev['kinds'], 'distinct_executions': len(states),
                'distinct_executions_measure': 'hash of the event log plus the (value stack, call stack) depths at every collection',
                'repeated_for_determinism': ev['redo'], 'nondeterministic': 0, 'trace_hash': trace.hexdigest()[:32],
                'real_components': mod.REAL, 'stub_components': mod.STUB},
            'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(evid, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d cases, %d simulated runs, %d collections verified, %d faults, %d distinct, %.1f s' % (
        pid, ev['evals'], ev['runs'], ev['checked'], sum(ev['faults'].values()), len(keys), wall))
    if os.environ.get('SIM_VERBOSE'):
        print(json.dumps({k: evid['coverage'][k] for k in ('faults_fired', 'probes', 'run_ends', 'distinct_executions', 'trace_hash', 'collections')}, indent=1))
    zero = [p for p in getattr(mod, 'PROBES', []) if not ev['probes'].get(p)]
    if zero: print('note: probes that stayed at zero: ' + ' '.join(zero))
    if viol:
        print(viol[1][0] + ': ' + viol[1][1])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(viol[0], ROOT)))
        sys.exit(1)
    sys.exit(0)

def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

REAL_ALL = ['lib/*.c (reader, VM, collector, heap, image reader/writer)', 'bin/*.c (ports, files, sockets, processes, main)',
            'the compiled-in image with the whole standard library, freshly built from stdlib*/ and binlib/', 'glibc stdio buffering']
STUB_ALL = ['file system, terminal, clock, child processes, resolver, TCP peers: in-memory models behind the libc calls']
