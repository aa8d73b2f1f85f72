"""C18: building the bootstrap image is reproducible under any collection schedule."""
import os, re
import nj, gcsched, world
from nj import E
from world import H, Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C18'
LEVEL = 'exploration'
RULE = ('case = a complete build of the standard library into an image (from the shipped image, or from an image built before) under a seeded collection schedule (single collections, dense windows, one every N collection points), '
        'a seeded memory fill pattern, with and without the collector oracle, or with failing system calls and allocations, or an image booted and used under a seeded schedule; '
        'images are compared byte for byte, or else by a canonical description of everything a program can reach; builds from the image they made must come to the same image; '
        'non-trivial when a collection was injected or a fault fired; distinct by schedule and faults')
ASSUMPTIONS = ['the directories are listed in one order', 'the image made by the first build is the reference for later ones', 'how trees keep their entries cannot be observed, except in the order of printing them']
NOTE = 'Sampled collection schedules and faults over the real build; equality of images is exact up to isomorphism.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['dense', 'spread', 'every', 'oracle', 'filled', 'from-built', 'rebuilt', 'used', 'failed-build', 'fault-survived', 'asan', 'same-bytes', 'tests-run', 'booted', 'no-image']

def budget(tier): return 120 if tier == 'quick' else 4000

REPO = os.environ.get('REPO', '/repo')
MAXSTEPS = 400000000

BOOTF = {'open': [E['EACCES'], E['EMFILE'], E['EIO']], 'read': [E['EIO'], E['EINTR']], 'seek': [E['EIO']], 'malloc': [E['ENOMEM']], 'close': [E['EIO']]}

def gen(R, i, tier):
    k = R.choice(['build', 'build', 'build', 'chain', 'use', 'tests', 'fault', 'fault', 'boot', 'boot'])
    if i == 0: k = 'chain'
    if k == 'boot':
        case = {'k': k, 'from': R.choice(['shipped', 'built']), 'fill': R.choice([None, 0, 255]), 's': sched(R), 'how': R.choice(['ok', 'ok', 'ok', 'after', 'after', 'missing', 'empty', 'dir', 'head', 'magic', 'twice', 'last']), 'env': nj.io_env(R), 'f': []}
        if case['how'] in ('ok', 'after') and R.random() < .7:
            f = R.choice(['open', 'read', 'read', 'read', 'seek', 'malloc', 'close'])
            case['f'] = [{'op': f, 'pos': R.randrange(1000000), 'err': R.choice(BOOTF[f])}]
        return case
    case = {'k': k, 'from': R.choice(['shipped', 'built']), 'fill': R.choice([None, None, 0, 255, 1, R.randrange(256)]), 's': sched(R)}
    if k == 'chain': case['s2'] = sched(R)
    if k == 'fault':
        f = R.choice(['malloc', 'malloc', 'read', 'open', 'write', 'readdir', 'close', 'seek', 'cap'])   # a directory that cannot be opened counts as empty, so not opendir and stat
        case['f'] = {'op': f, 'pos': R.randrange(1000000), 'err': R.choice([E['EIO'], E['ENOMEM'], E['EINTR'], E['ENOSPC']])}
        if f in ('readdir', 'open'): case['f']['err'] = R.choice([E['EACCES'], E['EMFILE'], E['EIO']])
        if R.random() < .2: case['f']['on'] = 1
    if k == 'build' and R.random() < .06: case['asan'] = True
    return case

def sched(R):
    k = R.randrange(8)
    if k < 2: return {'k': 'at', 'v': sorted(R.randrange(1000000) for _ in range(R.choice([1, 5, 40, 200])))}
    if k < 4: return {'k': 'run', 'v': [R.randrange(1000000), R.choice([20, 100, 400])]}
    if k < 5: return {'k': 'every', 'v': [R.choice([1, 2, 3, 7, 40, 1000]), R.randrange(1000000), R.choice([20, 200])]}
    if k < 6: return {'k': 'spread', 'v': R.choice([10, 100, 400])}
    if k < 7: return {'k': 'all', 'v': R.choice([50000, 12345, 5000])}
    return {'k': 'checked', 'v': [R.randrange(1000000) for _ in range(R.choice([1, 4, 12]))]}

_cache = {}
def sources(dirs):
    k = tuple(dirs)
    if k in _cache: return _cache[k]
    s = Scenario().dir('/sim').dir('/sim/tmp').add('cwd ' + H('/sim')).add('maxsteps %d' % MAXSTEPS)
    src = os.path.join(world.BUILD, 'src')
    for d in dirs:
        top = os.path.join(src, d)
        if not os.path.isdir(top): top = os.path.join(REPO, d)
        for r, ds, fs in os.walk(top):
            ds.sort()
            p = os.path.relpath(r, os.path.dirname(top))
            s.dir('/sim/' + p)
            for f in sorted(fs):
                if f.endswith('.o') or f.endswith('.pdf'): continue
                s.file('/sim/%s/%s' % (p, f), open(os.path.join(r, f), 'rb').read())
    if 'stdlib' in dirs: s.file('/sim/stdlib/sim-marker.nuj', b'(def sim/marker 4711)\n')   # tells images built here from the one built in
    _cache[k] = s.lines
    return s.lines

BUILD_DIRS = ('binlib', 'stdlib', 'stdlib_modules', 'tools')
TEST_DIRS = ('stdlib_modules', 'tools', 'tests')

def scen(args, dirs, image=None):
    s = Scenario()
    s.lines = list(sources(dirs))
    s.args('nujel')
    if image is not None: s.args('--base-image', '/sim/image').file('/sim/image', image)
    return s.args(*args)

def plan(s, sc, n, fill):
    """Add the schedule sc to a run with n collection points."""
    check = sc and sc['k'] == 'checked'
    if not check: s.add('gccheck 0')
    if fill is not None: s.add('fill %d' % fill)
    if not sc: return s
    if check: s.add('gcnative 0').add('gcat ' + ' '.join(str(x * n // 1000000) for x in sorted(set(sc['v']))))
    elif sc['k'] == 'all': s.add('gcevery %d' % sc['v'])
    else:
        for l in gcsched.lines(sc, 0, n): s.add(l)
    return s

class Bad(Exception): pass

_quiet = [0]
def run(env, o, s, what, asan=False):
    r = env.world(asan, True).run(s)
    if not _quiet[0]: o.see(r)          # what is kept for later cases is not part of this one
    if always_bad(r, o, what): raise Bad()
    return r

def built(r):
    """The image of a build, if the build says it succeeded."""
    return r.files().get('/sim/tmp/init.nuji') if r.kind == 'exit' and r.status == 0 and b'Image built successfully' in r.out else None

def canon(env, o, img, text=False):
    s = Scenario().dir('/sim').add('cwd ' + H('/sim')).args('nujel', '--base-image', '/sim/image', '-x', '(println (cat "booted" sim/marker))').file('/sim/image', img).add('canon %d' % (2 if text else 1)).add('gccheck 0')
    r = run(env, o, s, 'booting from the image: ')
    if r.kind != 'exit' or r.status or b'booted4711\r\n' != r.out:
        o.violation('boot', 'a runtime booted from the image ended by %s %s: %s' % (r.kind, r.status, (r.out + r.err)[-300:])); raise Bad()
    c = [l for l in r.log.split('\n') if l.startswith('canon ')]
    return r.files().get('/canon', b'').decode('latin-1') if text else c[0] if c else ''

_base = {}
def base(env, o, src):
    """(collection points, image, canonical form) of the plain build from the shipped image, or from the image built by that"""
    if src not in _base:
        _quiet[0] += 1
        try: base_(env, o, src)
        finally: _quiet[0] -= 1
    return _base[src]

def base_(env, o, src):
    if os.path.exists(os.path.join(world.BUILD, 'image-fallback')):
        o.violation('build', 'the standard library could not be built: ' + open(os.path.join(world.BUILD, 'image-fallback')).read()[-600:]); raise Bad()
    img = None if src == 'shipped' else base(env, o, 'shipped')[1]
    r = run(env, o, plan(scen(['tools/build-image.nuj'], BUILD_DIRS, img), None, 0, None), 'plain build from the %s image: ' % src)
    b = built(r)
    if b is None: o.violation('build', 'the plain build from the %s image failed: %s %s %s' % (src, r.kind, r.status, (r.out + r.err)[-500:].decode('latin-1'))); raise Bad()
    _base[src] = (r.head['safepoints'], b, canon(env, o, b), nj.calls(r), r.head['mallocs'])

def same(env, o, img, want, what):
    """Is img the image want?"""
    if img == want[1]: o.probe('same-bytes'); return True
    c = canon(env, o, img)
    if c == want[2]: return True
    a, b = canon(env, o, want[1], True).split('\n'), canon(env, o, img, True).split('\n')
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    o.violation('image', '%sthe image differs: at line %d of its description there is %r instead of %r' % (what, k, b[k:k+1], a[k:k+1]))
    return False

USE = ['-x', '(println (apply cat (map (sort (map (range 40) (fn (x) (rem (* x 7919) 104)))) (fn (x) (cat x " ")))))',
       '-x', '(import (hash) :crypto/md5) (println (hash "collected"))',
       '-x', '(import (serialize) :serialization/json) (println (serialize {:a 1 :b (array/new 1 2 "x")}))',
       '-x', '(defclass pt (defn new (self x) {:x x :prototype* self}) (defn get (self) self.x)) (println (:get (:new pt 42)))',
       '-x', '(defmacro twice (a) `(do ~a ~a)) (def n 0) (twice (set! n (+ n 21))) (println n)',
       '-x', '(println (try (fn (e) (car e)) (throw (list :caught 1))))',
       '-x', '(println (string/write (compile (quote (let ((a 1)) (+ a 2))))))',
       '-x', '(println (:length (image/serialize (fn (x) (+ x 1)))))',
       '-x', '(println (string/write (read "(a #(1 2) {:k v} \\"s\\" 1.5 :kw)")))']

def execute(case, env, o):
    try: execute_(case, env, o)
    except Bad: pass

def execute_(case, env, o):
    k, sc = case['k'], case['s']
    w = base(env, o, case['from'])
    fill = case.get('fill')
    if fill is not None: o.probe('filled')
    o.probe({'at': 'spread', 'run': 'dense', 'every': 'dense', 'spread': 'spread', 'all': 'every', 'checked': 'oracle'}[sc['k']])
    img = None
    if case['from'] == 'built': img = base(env, o, 'shipped')[1]; o.probe('from-built')
    what = '%s %s: ' % (k, sc if k != 'fault' else case['f']) if k != 'boot' else 'boot %s %s %s: ' % (case['how'], sc, case['f'])
    o.key = repr(case)
    if k in ('build', 'chain'):
        if case.get('asan'): o.probe('asan')
        r = run(env, o, plan(scen(['tools/build-image.nuj'], BUILD_DIRS, img), sc, w[0], fill), what, case.get('asan', False))
        b = built(r)
        if b is None: o.violation('build', '%sthe build failed: %s %s %s' % (what, r.kind, r.status, (r.out + r.err)[-500:].decode('latin-1'))); return
        if r.head['gcs'] > 12: o.nontrivial = True
        if not same(env, o, b, w, what): return
        if k == 'chain':
            # what a runtime booted from it builds is what one booted from the reference builds
            x = base(env, o, 'built')
            r = run(env, o, plan(scen(['tools/build-image.nuj'], BUILD_DIRS, b), case['s2'], x[0], fill), what + 'rebuilding: ')
            c = built(r)
            if c is None: o.violation('build', '%srebuilding failed: %s %s %s' % (what, r.kind, r.status, (r.out + r.err)[-500:].decode('latin-1'))); return
            o.probe('rebuilt')
            if not same(env, o, c, x, what + 'rebuilding: '): return
            if case['from'] == 'built' or True:
                # the library compiled by itself comes out as itself
                if canon(env, o, c) != x[2]: o.violation('image', what + 'the image is no fixed point of building it'); return
                if x[2] != base(env, o, 'shipped')[2]:
                    same(env, o, x[1], base(env, o, 'shipped'), 'building with the image just built: ')
    elif k == 'use':
        a = run(env, o, plan(scen(USE, ('tools',), w[1]), None, 0, None), 'using the image: ')
        r = run(env, o, plan(scen(USE, ('tools',), w[1]), sc, a.head['safepoints'], fill), what)
        o.probe('used'); o.nontrivial = True
        if (a.kind, a.status, a.out, a.err) != (r.kind, r.status, r.out, r.err): o.violation('use', '%sa program run from the image printed %r instead of %r (%s %s)' % (what, (r.out + r.err)[-400:], (a.out + a.err)[-400:], r.kind, r.status)); return
        if a.status or b'42' not in a.out: o.violation('use', 'the programs run from the image printed %r' % a.out[-600:]); return
    elif k == 'tests':
        if not os.path.isdir(os.path.join(REPO, 'tests')): return
        if 'tests' not in _base:
            b = base(env, o, 'shipped')[1]
            _quiet[0] += 1
            try: a = run(env, o, plan(scen(['tools/tests.nuj'], TEST_DIRS, b), None, 0, None), 'the tests: ')
            finally: _quiet[0] -= 1
            _base['tests'] = (a.head['safepoints'], marks(a), a.status)
        n, m, st = _base['tests']
        b = base(env, o, case['from'])[1]
        r = run(env, o, plan(scen(['tools/tests.nuj'], TEST_DIRS, b), sc, n, fill), what)
        o.probe('tests-run'); o.nontrivial = True
        if marks(r) != m or r.status != st or r.kind != 'exit':
            x = [y for y in marks(r) if y not in m][:3]
            o.violation('use', '%sthe test suite run from the image came out differently: %s (%s %s)' % (what, x, r.kind, r.status)); return
    elif k == 'boot':
        img = w[1]
        def boot():
            s = Scenario().dir('/sim').add('cwd ' + H('/sim'))
            h, x, im = case['how'], ['-x', '(println (cat "booted" sim/marker))'], ['--base-image', '/sim/image']
            s.args('nujel', *{'last': x + im[:1], 'twice': im + im + x, 'after': x + im}.get(h, im + x))
            if h == 'dir': s.dir('/sim/image')
            elif h != 'missing': s.file('/sim/image', {'empty': b'', 'head': img[:4], 'magic': b'#!/b' + img[4:]}.get(h, img))
            return s
        e = run(env, o, boot().add('gccheck 0'), what)
        if case['how'] not in ('ok', 'after'):
            o.probe('no-image'); o.nontrivial = True
            want = {'last': 125, 'twice': 124}.get(case['how'], 131)
            if e.kind != 'exit' or e.status != want or e.out: o.violation('boot', '%sstarted with an image argument that is %s, the runtime ended by %s %s after printing %r' % (what, case['how'], e.kind, e.status, e.out[-200:]))
            return
        n = nj.calls(e)
        s = plan(boot(), sc, e.head['safepoints'], fill)
        for l in case['env']: s.add(l)
        for f in case['f']:
            m = e.head['mallocs'] if f['op'] == 'malloc' else n.get(f['op'], 0)
            if m: s.add('fault %s %d %d' % (f['op'], f['pos'] % m if f['op'] != 'malloc' else f['pos'] * m // 1000000, f['err']))
        for i, r in enumerate((e, run(env, o, s, what))):
            o.nontrivial |= i and bool(r.head['faults'] or r.head['gcs'])
            good = r.kind == 'exit' and r.status == 0 and r.out == b'booted4711\r\n'
            if i and r.head['faults'] and r.kind == 'exit' and r.status != 0 and r.out in (b'', b'booted4711\r\n'): o.probe('boot-refused'); continue
            if i and r.head['faults'] and case['f'] and case['f'][0]['op'] == 'malloc' and r.kind == 'exit' and b'booted' not in r.out: continue   # reported like any error of an expression
            if not good: o.violation('boot', '%sa runtime started from the image printed %r %r (%s %s)' % (what, r.out[-300:], r.err[-200:], r.kind, r.status)); return
        o.probe('booted')
    elif k == 'fault':
        f = case['f']
        s = plan(scen(['tools/build-image.nuj'], BUILD_DIRS, img), None, 0, fill)
        if f['op'] == 'cap': s.add('cap %d' % (f['pos'] * len(w[1]) // 1000000 + 1500000))
        else:
            n = w[4] if f['op'] == 'malloc' else w[3].get(f['op'], 0)
            if not n: raise Invalid()
            i = f['pos'] * n // 1000000
            if f['op'] == 'write' : i = f['pos'] % n
            s.add('fault %s %d %d' % (f['op'], -i - 1 if f.get('on') else i, f['err']))
        r = run(env, o, s, what)
        if r.head['faults'] or f['op'] == 'cap': o.nontrivial = True
        b = built(r)
        if b is not None:
            if not same(env, o, b, w, what): return
            o.probe('fault-survived')
        elif r.kind == 'exit' and r.status == 0: o.violation('silent', '%sno image was built, but the build did not fail: %r' % (what, (r.out + r.err)[-300:])); return
        else: o.probe('failed-build')
    else: raise Invalid()

def marks(r):
    """What the tests report, without the times."""
    t = re.sub(r'\x1b\[[0-9;]*m', '', (r.out + b'\n' + r.err).decode('latin-1'))
    return re.findall(r'^.*\[\d+ / \d+\]', t, re.M) + re.findall(r'^.* != .*$', t, re.M)

def shrink(case):
    if case.get('fill') is not None: yield dict(case, fill=None)
    if case.get('asan'): yield dict(case, asan=False)
    if case['from'] == 'built': yield dict(case, **{'from': 'shipped'})
    sc = case['s']
    if sc['k'] in ('at', 'checked'):
        n = len(sc['v'])
        for a in (n // 2, n // 4, 1):
            if a and n > 1:
                for j in range(0, n, a): yield dict(case, s=dict(sc, v=sc['v'][:j] + sc['v'][j+a:]))
    if sc['k'] == 'run' and sc['v'][1] > 1:
        yield dict(case, s=dict(sc, v=[sc['v'][0], sc['v'][1] // 2]))
    if sc['k'] == 'spread' and sc['v'] > 1: yield dict(case, s=dict(sc, v=sc['v'] // 2))
    if sc['k'] == 'all': yield dict(case, s=dict(sc, v=sc['v'] * 2))
