"""C21: scripts run their arguments in order and report their outcome in the exit status."""
import re
import nj, gcsched
from nj import E
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C21'
LEVEL = 'exploration'
RULE = ('case = a command line of up to five expressions followed by nothing, a script or a module with arguments, whose statements print, define, call, loop, catch, throw, import another file and exit from within functions, '
        'handlers and imported files, or which cannot be read; run under seeded collections, portioned and failing file reads and failing output; standard output, order and exit status compared with a model; '
        'non-trivial when collections ran or a fault struck; distinct by command line and faults')
ASSUMPTIONS = ['of an error report only the first line is compared', 'an expression given with -x that fails is reported and does not change the status']
NOTE = 'Sampled command lines and faults against a small interpreter of the same statements.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['script', 'module', 'expressions', 'exit-nested', 'exit-in-import', 'uncaught', 'caught', 'main', 'unreadable', 'missing', 'read-failed', 'output-failed', 'collected', 'absolute-path', 'stderr', 'big-output', 'environment', 'env-odd']
OUTF = {'outwrite': [E['EPIPE'], E['ENOSPC'], E['EIO'], E['EAGAIN']]}
INF = {'open': [E['EIO'], E['EACCES'], E['EMFILE'], E['ENFILE'], E['ENOMEM']], 'read': [E['EIO'], E['ESTALE']], 'seek': [E['EIO']], 'close': [E['EIO']]}
THROWS = [('(throw (list :boom 3))', ':boom'), ('(print unbound-thing)', ':unbound-variable'), ('(print (+ 1 "a"))', ':type-error'), ('(print (rem 3 0))', ':division-by-zero'), ('(print (ref ##(1) 7))', ':out-of-bounds'), ('(throw :plain)', ':plain'),
          ('((fn (x) (throw (list :inner x))) 4)', ':inner'), ('(exception "msg" 5)', 'msg')]
BAD = ['(print "=never\\n"', ')', '(print "=never\\n"))', '"open string', '(a . . b']
WHERE = {'plain': '(exit %d)', 'fn': '((fn (x) (exit x) (print "=after\\n")) %d)', 'try': '(try (fn (e) (print "=handler\\n")) (exit %d) (print "=after\\n"))', 'handler': '(try (fn (e) (exit %d) (print "=after\\n")) (throw :h))',
         'map': '(map (list %d) (fn (x) (exit x)))', 'deep': '(let ((f #nil)) (set! f (fn (n x) (if (zero? n) (exit x) (+ 0 (f (- n 1) x))))) (f 60 %d))', 'arg': '(print (exit %d))', 'loop': '(dotimes (i 5) (when (= i 2) (exit %d)))'}

def budget(tier): return 1300 if tier == 'quick' else 30000

def stmts(R, d, n=None):
    L = []
    for _ in range(n if n is not None else R.choice([0, 1, 2, 3, 5, 8])):
        x = R.random()
        if x < .4: L.append(['p', R.randrange(10000)])
        elif x < .48: L.append(['pw', R.choice([1, 10, 100, 1000, 5000, 70000]), R.choice('abc')])
        elif x < .54: L.append(['fw', R.randrange(10000)])
        elif x < .58: L.append(['e', R.randrange(1000)])
        elif x < .66: L.append(['set', R.randrange(4), R.randrange(100)])
        elif x < .74: L.append(['pv', R.randrange(4)])
        elif x < .78: L.append(['throw', R.randrange(len(THROWS))])
        elif x < .81: L.append(['exit', R.choice([0, 1, 2, 3, 77, 127, 128, 255, 256, 300, -1]), R.choice(sorted(WHERE))])
        elif x < .9 and d: L.append(['try', stmts(R, d - 1), stmts(R, d - 1, R.randrange(3))])
        elif x < .95 and d: L.append(['loop', R.randrange(4), stmts(R, d - 1, R.randrange(1, 3))])
        elif d > 1: L.append(['imp', stmts(R, 1)])
        else: L.append(['p', R.randrange(10000)])
    return L

KEYS = ['A', 'B', 'a', 'PATH', 'HOME', 'x' * 93, 'x' * 60, 'with space', 'ü', '(', 'TERM', 'A_B', 'A-B', '#t', '1', ':k', '\x01', 'n\n']
def genenv(R):
    L = []
    for _ in range(R.choice([0, 1, 2, 5, 20, 150, 600])):
        k = R.choice(KEYS) if R.random() < .5 else 'V%d' % R.randrange(1000)
        v = R.choice(['', '1', '=', 'a=b', 'two words', 'line\nbreak', '/bin:/usr/bin', '"', '\\', 'ünïcode', '\xff\xfe', '\x00'.join([]), 'y' * R.choice([100, 5000, 70000]), '%s', '~a', '(exit 3)', '#nil', str(R.randrange(10**9))])
        x = R.random()
        L.append(k if x < .04 else '=' + v if x < .08 else k + '=' + v)
    return L

ARGS = ['', 'a', '-x', '--flag', 'two words', 'ünïcode', '"quoted"', '(exit 9)', '-', '--', 'x' * 300, '-m', '\\n', '%s', '#nil']
def gen(R, i, tier):
    if R.random() < .06:
        return {'k': 'env', 'env': genenv(R), 'args': [R.choice(ARGS) for _ in range(R.choice([0, 1, 3, 3, 300]))], 'fill': R.choice([None, 0, 255, R.randrange(256)]), 'gc': gcsched.gen(R, 20), 'asan': R.random() < .2}
    items = [['x', stmts(R, 2, R.randrange(1, 5)) if R.random() < .93 else R.randrange(len(BAD))] for _ in range(R.choice([0, 0, 1, 1, 2, 3, 5]))]
    y = R.random()
    last = None
    if not items or y < .65:
        last = {'how': R.choice(['rel', 'rel', 'dot', 'abs', 'm', 'm']), 'body': stmts(R, 2), 'main': stmts(R, 2) if R.random() < .5 else None, 'args': [R.choice(ARGS) for _ in range(R.choice([0, 1, 2, 4]))],
                'state': R.choices(['ok', 'missing', 'dir'] + ['bad%d' % b for b in range(len(BAD))], [24, 1, 1] + [1] * len(BAD))[0]}
    runs = []
    for _ in range(3):
        r = {'f': [], 'env': nj.io_env(R)}
        x = R.random()
        if x < .25: r['f'] = nj.gen_faults(R, OUTF, R.choice([1, 1, 2]))
        elif x < .45: r['f'] = nj.gen_faults(R, INF, 1)
        if R.random() < .6: r['gc'] = gcsched.gen(R, 20)
        runs.append(r)
    return {'items': items, 'last': last, 'runs': runs, 'asan': R.random() < .08}

class Exit(Exception): pass
class Throw(Exception): pass

class Model:
    """Runs the statements; builds their source and their output."""
    def __init__(self): self.out, self.err, self.files, self.flags, self.dep = [], '', {}, set(), 0
    def src(self, L, base='v'):
        o = []
        for s in L:
            k = s[0]
            if k == 'p': o.append('(print "=%d\\n")' % s[1])
            elif k == 'pw': o.append('(print (cat "=" (:string (apply cat (map (range %d) (fn (x) "%s")))) "\\n"))' % (s[1], s[2]) if s[1] < 100 else '(let ((s "%s")) (while (< (:length s) %d) (set! s (cat s s))) (print (cat "=" (cut s 0 %d) "\\n")))' % (s[2], s[1], s[1]))
            elif k == 'fw': o.append('(file/write* stdout* "=f%d\\n")' % s[1])
            elif k == 'e': o.append('(error "=e%d\\n")' % s[1])
            elif k == 'set': o.append('(def v%d %d)' % (s[1], s[2]) if base == 'v' else '(set! v%d %d)' % (s[1], s[2]))
            elif k == 'pv': o.append('(print (cat "=" (string/write v%d) "\\n"))' % s[1])
            elif k == 'throw': o.append(THROWS[s[1]][0])
            elif k == 'exit': o.append(WHERE[s[2]] % s[1])
            elif k == 'try': o.append('(try (fn (e) %s (print (cat "=caught " (string/write (car e)) "\\n"))) %s #t)' % (self.src(s[2], 'n'), self.src(s[1], 'n')))
            elif k == 'loop': self.dep += 1; o.append('(dotimes (i%d %d) %s)' % (self.dep, s[1], self.src(s[2], 'n') or '1'))
            elif k == 'imp':
                n = 'imp%d' % len(self.files)
                self.files[n] = None
                self.files[n] = '(def v0 0)(def v1 0)(def v2 0)(def v3 0)\n%s\n(def answer "from %s")\n(export answer answer)\n' % (self.src(s[1]), n)
                o.append('((fn () (import (answer) "%s") (print (cat "=" answer "\\n"))))' % n)
                s.append(n)
            else: raise Invalid()
        return '\n'.join(o)
    def run(self, L, vs):
        for s in L:
            k = s[0]
            if k == 'p': self.out.append('=%d\n' % s[1])
            elif k == 'pw': self.out.append('=' + s[2] * s[1] + '\n'); self.flags |= {'big-output'} if s[1] > 4096 else set()
            elif k == 'fw': self.out.append('=f%d\n' % s[1])
            elif k == 'e': self.err += '=e%d\n' % s[1]; self.flags.add('stderr')
            elif k == 'set': vs[s[1]] = s[2]
            elif k == 'pv': self.out.append('=%d\n' % vs[s[1]])
            elif k == 'throw': raise Throw(THROWS[s[1]][1])
            elif k == 'exit':
                if s[2] != 'plain': self.flags.add('exit-nested')
                raise Exit(s[1] & 255)
            elif k == 'try':
                try: self.run(s[1], vs)
                except Throw as e:
                    self.flags.add('caught')
                    self.run(s[2], vs)
                    self.out.append('=caught %s\n' % ('"msg"' if e.args[0] == 'msg' else e.args[0]))
            elif k == 'loop':
                for _ in range(s[1]): self.run(s[2], vs)
            elif k == 'imp':
                if not self.once.get(s[2]):
                    try: self.run(s[1], [0] * 4)
                    except Exit: self.flags.add('exit-in-import'); raise
                    self.once[s[2]] = True
                self.out.append('=from %s\n' % s[2])
    once = None

def build(case):
    m = Model(); m.once = {}
    import copy
    case = copy.deepcopy(case)
    args, files = ['nujel'], {}
    glob = '(def v0 0)(def v1 0)(def v2 0)(def v3 0)'
    xs = []
    for k, b in case['items']:
        if k != 'x': raise Invalid()
        if isinstance(b, int): xs.append(BAD[b])
        else: xs.append(m.src(b))
    if xs: args += ['-x', glob]
    for x in xs: args += ['-x', x]
    last = case['last']
    if last:
        src = glob + '\n' + m.src(last['body']) + '\n'
        if last['main'] is not None:
            src += '(defn main (args) :export (print "=main\\n") (for-each args (fn (a) (print (cat "=" (string/write a) "\\n"))))\n%s)\n' % m.src(last['main'], 'n')
        if last['state'].startswith('bad'): src += BAD[int(last['state'][3:])] + '\n'
        p = {'rel': 'd/s.nuj', 'dot': './d/../d/./s.nuj', 'abs': '/sim/d/s.nuj', 'm': '/sim/d/s'}[last['how']]
        args += (['-m', p] if last['how'] == 'm' else [p]) + last['args']
        files['d/s.nuj'] = src
    for n in m.files: files['d/' + n + '.nuj'] = m.files[n]; files[n + '.nuj'] = m.files[n]
    # what happens
    status, vs = 0, [0] * 4
    try:
        for k, b in case['items']:
            try:
                if isinstance(b, int): raise Throw(':')
                # files imported relative to the directory the runtime started in
                m.run(b, vs)
            except Throw as e: m.out.append(('err', e.args[0])); m.flags.add('uncaught')
        if last:
            m.once = {}
            try:
                if last['state'] != 'ok': m.flags.add('unreadable' if last['state'].startswith('bad') else 'missing'); raise Throw('')
                m.run(last['body'], [0] * 4 if True else None) if last['main'] is None else m.run2(last)
            except Throw as e: m.out.append(('err', e.args[0])); status = 1; m.flags.add('uncaught')
            if last['how'] == 'm' and not status and last['main'] is None: m.out.append(('err', '')); status = 1
    except Exit as e: status = e.args[0]
    return args, files, m, status

def run2(self, last):
    vs = [0] * 4
    self.run(last['body'], vs)
    self.flags.add('main')
    self.out.append('=main\n')
    for a in last['args']:
        self.out.append('="%s"\n' % a.replace('\\', '\\\\').replace('"', '\\"'))
    self.run(last['main'], vs)
Model.run2 = run2

def scen(case):
    args, files, m, status = build(case)
    s = Scenario()
    s.args(*args)
    s.dir('/sim/d')
    st = case['last']['state'] if case['last'] else 'ok'
    for n in files:
        if n == 'd/s.nuj' and st == 'missing': continue
        if n == 'd/s.nuj' and st == 'dir': s.dir('/sim/' + n); continue
        s.file('/sim/' + n, files[n].encode('utf-8'))
    s.add('stdinhang')
    return s.add('loglevel 2').add('maxsteps 300000000'), m, status

def match(out, exp):
    at = 0
    for j, e in enumerate(exp):
        if isinstance(e, tuple):
            if not out.startswith(e[1], at): return j, at
            nx = exp[j + 1] if j + 1 < len(exp) else None
            if isinstance(nx, tuple) and not nx[1]: continue
            n = out.find('\n' + (nx[1] if isinstance(nx, tuple) else '='), at)
            at = n + 1 if n >= 0 else len(out)
        elif out.startswith(e, at): at += len(e)
        else: return j, at
    return len(exp), at

def valid(L):
    N = {'p': 2, 'pw': 3, 'fw': 2, 'e': 2, 'set': 3, 'pv': 2, 'throw': 2, 'exit': 3, 'try': 3, 'loop': 3, 'imp': 2}
    for s in L:
        if not s or N.get(s[0]) != len(s): raise Invalid()
        if s[0] in ('set', 'pv') and not 0 <= s[1] < 4 or s[0] == 'throw' and not 0 <= s[1] < len(THROWS) or s[0] == 'exit' and s[2] not in WHERE or s[0] == 'pw' and (s[2] not in ('a', 'b', 'c') or s[1] < 1): raise Invalid()
        for x in s[1:]:
            if isinstance(x, list): valid(x)

SHOW = '(for-each (:keys System/Environment) (fn (k) (print (cat "@@" (:string k) "=" (ref System/Environment k) "\n"))))'

def execute_env(case, env, o):
    w = env.world(case.get('asan', False), True)
    exp = {}
    for e in case['env']:
        if '\0' in e or e == '': raise Invalid()
        k, q, v = e.partition('=')
        if not q: o.probe('env-odd'); continue
        exp[k.encode('latin-1')] = v.encode('latin-1')
    want = sorted(b'@@' + k + b'=' + v + b'\n' for k, v in exp.items()) if exp else []
    src = SHOW + '(defn main (args) :export (for-each args (fn (a) (print (cat "=" a "\n")))))'
    n = 0
    for k in range(2):
        s = Scenario().args('nujel', '-m', '/sim/s', *case['args']).dir('/sim').file('/sim/s.nuj', src.encode('latin-1')).add('gccheck 0')
        for e in case['env'] or ['PATH=/bin']: s.add('env', nj.H(e))
        if k:
            if case['fill'] is not None: s.add('fill %d' % case['fill'])
            for l in gcsched.lines(case['gc'], 0, n): s.add(l)
        r = o.see(w.run(s)); n = r.head['safepoints']
        what = 'environment%s: ' % (' with collections' if k else '')
        if always_bad(r, o, what): return
        a = b''.join(b'=' + x.encode('latin-1') + b'\n' for x in case['args'])
        rest = r.out
        if a:
            if not rest.endswith(a): o.violation('args', '%sthe arguments came as %r' % (what, rest[-300:])); return
            rest = rest[:-len(a)]
        have = sorted(b'@@' + x for x in rest.split(b'@@')[1:])
        if not case['env']: want = [b'@@PATH=/bin\n']
        if have != want:
            d = [x for x in want if x not in have][:2], [x for x in have if x not in want][:2]
            o.violation('environment', '%sof what the runtime was started with %r is missing, %r is seen instead' % (what, [x[:200] for x in d[0]], [x[:200] for x in d[1]])); return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, r.out[-200:])); return
        if k and r.head['gcs']: o.nontrivial = True
    o.probe('environment')
    o.key = repr(case)

def execute(case, env, o):
    if case.get('k') == 'env': return execute_env(case, env, o)
    la = case['last']
    if not case['items'] and not la: raise Invalid()
    for it in case['items']:
        if len(it) != 2: raise Invalid()
        if isinstance(it[1], list): valid(it[1])
        elif not 0 <= it[1] < len(BAD): raise Invalid()
    if la:
        valid(la['body'])
        if la['main'] is not None: valid(la['main'])
        if la['how'] not in ('rel', 'dot', 'abs', 'm') or la['state'] not in ['ok', 'missing', 'dir'] + ['bad%d' % b for b in range(len(BAD))]: raise Invalid()
    if any(f['err'] <= 0 or f['op'] not in OUTF and f['op'] not in INF for x in case['runs'] for f in x['f']): raise Invalid()
    w = env.world(case.get('asan', False))
    if case['items']: o.probe('expressions')
    if la: o.probe('module' if la['how'] == 'm' else 'script')
    if la and la['how'] == 'abs': o.probe('absolute-path')
    base = None
    caught = 'try' in repr(case['items']) + repr(la)
    for k, x in enumerate([None] + case['runs']):
        s, m, status = scen(case)
        fl = []
        if x:
            for l in x['env']: s.add(l)
            n = nj.calls(base)
            fl = nj.place(x['f'], n)
            for l in fl: s.add(l)
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        if base is None: base = r
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        for f in m.flags: o.probe(f)
        if r.head['gcs'] and x and 'gc' in x: o.probe('collected'); o.nontrivial = True
        out = r.out.decode('latin-1')
        if r.kind != 'exit': o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, out[-200:])); return
        n, at = match(out, m.out)
        if 'FAULT' not in r.log:
            if n < len(m.out): o.violation('output', '%spart %d: %r instead of %r; before it: %r' % (what, n, out[at:at + 200], m.out[n], out[max(0, at - 100):at])); return
            if at < len(out): o.violation('output', '%sunexpected output at the end: %r' % (what, out[at:at + 300])); return
            if r.status != status: o.violation('status', '%sstatus %d instead of %d' % (what, r.status, status)); return
            if r.err.decode('latin-1') != m.err: o.violation('stderr', '%swrote %r instead of %r on standard error' % (what, r.err[-200:], m.err[-200:])); return
            continue
        o.nontrivial = True
        if 'FAULT outwrite' in r.log:
            o.probe('output-failed')
            if n < len(m.out) and not caught and at < len(out) and ':io-error' not in out[at:] and r.status == 0:
                o.violation('output', '%spart %d: %r instead of %r' % (what, n, out[at:at + 200], m.out[n])); return
            if la and la['state'] == 'ok' and not caught and r.status == 0 and status == 0 and n < len(m.out) and not any(isinstance(e, tuple) for e in m.out):
                # the output of expressions may be lost after reporting it, that of a script may not
                if not case['items']: o.violation('status', '%sstatus 0 though output was lost: %r' % (what, out[-200:])); return
        else:
            o.probe('read-failed')
            # either as without the fault, or the file could not be loaded and that was reported
            if n == len(m.out) and at == len(out) and r.status == status: continue
            if caught or 'imp' in repr(case['items']): continue
            if r.status == 0: o.violation('status', '%sstatus 0 though a file could not be read: %r' % (what, out[-300:])); return
            if any(l.startswith('=') and l not in out0(m) for l in out[at:].split('\n')): o.violation('output', '%safter the failed load: %r' % (what, out[at:][:200])); return
    o.key = repr((case['items'], case['last'], case['runs']))

def out0(m):
    return set(''.join(e for e in m.out if isinstance(e, str)).split('\n'))
