"""C09: an interactive session evaluates each line once and survives every error."""
import re
import nj, gcsched, wild
import exprgen as X
from nj import E
from world import Scenario
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C09'
LEVEL = 'exploration'
RULE = ('case = a session of 1-30 inputs in the full or the small REPL: random expressions, definitions and uses of variables, functions and macros, side effects on a file, errors of all kinds, forms over several lines, '
        'blocks between [cmd] and [/cmd], nested line input, exit; typed with seeded portions and pauses, cut off anywhere, under seeded collections, failing reads and failing output; the complete transcript and the '
        'side effects compared with a model of the session; non-trivial when the input was portioned or a fault struck; distinct by session and arrivals')
ASSUMPTIONS = ['the text of an error report is only required to start with the type of the error', 'a line ends with a line feed; the last one may lack it']
NOTE = 'Sampled sessions, arrivals and faults against a model session; values of pure expressions come from a separate simulated run without the REPL.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['full', 'small', 'error', 'multi-line', 'block', 'nested-input', 'exit', 'eof', 'unterminated', 'waiting', 'read-failed', 'output-failed', 'collected', 'history', 'long-literal']
FAULTS = {'inread': [E['EIO'], E['EINTR'], E['EAGAIN']]}
OUTF = {'outwrite': [E['EPIPE'], E['ENOSPC'], E['EIO']]}
ERRS = [('(throw (list :boom 3))', ':boom'), ('unbound-thing', ':unbound-variable'), ('(unbound-fun 1)', ':unbound-variable'), ('(+ 1 "a")', ':type-error'), (')', ':read-error'), ('(list 1))', ':read-error'),
        ('"never closed', ':read-error'), ('(rem 1 0)', ':division-by-zero'), ('(ref ##(1 2) 9)', ':out-of-bounds'), ('(set! never-defined 1)', ':unbound-variable'), ('(throw :plain)', ':plain'),
        ('(do (log! 7777) (throw (list :later 1)))', ':later'), ('(try (fn (e) (throw (list :again (car e)))) (throw :first))', ':again'), ('(map (list 1 2) (fn (x) (throw (list :inner x))))', ':inner'),
        ('(read "(unclosed")', ':unmatched-opening-bracket'), ('(slurp 5)', ':type-error'), ('(throw 5)', '5'), ('(#nil 1)', ':type-error'), ('(rec-missing (rec-missing 1))', ':unbound-variable'), ('(eval-in 5 1)', ':type-error')]

def budget(tier): return 800 if tier == 'quick' else 20000

LITS = ["[1 2 (+ 1 2)]", '{:a 1 :b (+ 1 1)}', '(list [1 2] {:a 1 :b ##(1 2)} 4)', '[{:a [1 2]} (list 3 4)]', "{:k '(1 . 2) :l [7 8 9]}", '(ref {:aa 1 :bb [2 3]} :bb)', "(list ##(1 (2 3)) '(a (b . c)) [4 5])", '(cat [1 2] {:x 1})', "(quote (1 #;(a b) 2 @(:t 1) #m0102))", '[(list #|(|# 1 2) {} []]']

def gen(R, i, tier):
    full = R.random() < .6
    its, nv, nf, nm = [], 0, 0, 0
    for _ in range(R.choice([1, 3, 6, 10, 16, 30])):
        x = R.random()
        if x < .03: it = ['e', R.choice(LITS)]
        elif x < .2: it = ['e', R.choice([X.num, X.string, X.lst, X.arr, X.any_])(R, 3)]
        elif x < .3: it = ['def', nv, R.randrange(1000)]; nv += 1
        elif x < .38 and nv: it = ['set', R.randrange(nv), R.randrange(1000)]
        elif x < .44 and nv: it = ['var', R.randrange(nv)]
        elif x < .48 and nv: it = ['fun', nf, R.randrange(nv)]; nf += 1
        elif x < .54 and nf: it = ['call', R.randrange(nf), R.randrange(100)]
        elif x < .57: it = ['mac', nm, R.randrange(100)]; nm += 1
        elif x < .61 and nm: it = ['use', R.randrange(nm), R.randrange(100)]
        elif x < .72: it = ['eff', R.randrange(1000)]
        elif x < .735: it = ['long', R.choice([40, 1000, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 9000, R.randrange(4000, 20000)]), R.randrange(30)]
        elif x < .77: it = ['wild', wild.call(R), R.randrange(1000)]
        elif x < .86: it = ['err', R.randrange(len(ERRS))]
        elif x < .89: it = ['blank', R.choice(['', ' ', '\t ', '; only a comment'])]
        elif x < .92: it = ['two', R.randrange(100), R.randrange(1000)]
        elif x < .95: it = ['ask', R.choice(['hello', '', '(+ 1', ')', '"', '(log! 5)', 'x' * 200])]
        elif x < .98 and full: it = ['hist', R.choice([1, 1, 2, 3])]
        else: it = ['block', [R.randrange(1000) for _ in range(R.randrange(1, 4))]]
        cut = [[R.randrange(1000000), R.choice(['\n', '\n\n', '  \n ', ' ; note\n'])] for _ in range(R.choice([1, 1, 2, 4]))] if R.random() < (.9 if x < .03 else .25) else []
        its.append([it, cut])
    if R.random() < .25: its.append([['exit', R.choice([0, 1, 7, 42, 255])], []])
    runs = []
    for _ in range(3):
        cuts = sorted(R.randrange(1000001) for _ in range(R.choice([0, 1, 2, 5, 20])))
        r = {'cuts': cuts, 'dt': [R.choice([0, 0, 1, 50, 1000, 100000]) for _ in range(len(cuts) + 1)], 'f': [], 'env': [], 'hang': None}
        if R.random() < .5: r['env'].append('chunk in ' + ' '.join(str(R.choice([1, 2, 3, 10, 100, 0])) for _ in range(R.randrange(1, 5))))
        if R.random() < .3: r['env'].append('bufsize %d' % R.choice([0, 1, 7, 64, 128, 1000]))
        if R.random() < .2: r['env'].append('notty')
        y = R.random()
        if y < .2: r['hang'] = R.randrange(1000001)
        elif y < .35: r['f'] = nj.gen_faults(R, FAULTS, 1)
        elif y < .5: r['f'] = nj.gen_faults(R, OUTF, R.choice([1, 1, 2]))
        if R.random() < .6: r['gc'] = gcsched.gen(R, 20)
        runs.append(r)
    return {'full': full, 'its': its, 'nl': R.random() < .8, 'runs': runs, 'asan': R.random() < .1}

def spots(t):
    """The spaces of t inside brackets and outside of strings and literals."""
    L, depth, q, j = [], 0, False, 0
    while j < len(t):
        c = t[j]
        if q:
            if c == '\\': j += 1
            elif c == '"': q = False
        elif c == '"': q = True
        elif c == '#' and t[j + 1:j + 2] == '\\': j += 2
        elif c in '([{': depth += 1
        elif c in ')]}': depth -= 1
        elif c == ' ' and depth > 0: L.append(j)
        j += 1
    return L

def split(t, cut):
    sp = spots(t)
    if not sp: return [t]
    at = {}
    for f, s in cut: at[sp[f * len(sp) // 1000000 if f < 1000000 else -1]] = s
    return ''.join(at.get(j, c) for j, c in enumerate(t)).split('\n')

LOGDEF = '(do (defn log! (k) (let ((h (file/open-output* "eff" :append))) (file/write* h (cat k " ")) (file/close* h) k)) :ready)'

def pure(case):
    return [it[1] for it, cut in case['its'] if it[0] == 'e']

def session(case, vals):
    """[(line, expected output up to the next line)], effects, exit status; ('err', type) stands for an error report."""
    P = '> '
    L = [(LOGDEF, [':ready\r\n', P], [])]
    vs, fs, ms, hist = {}, {}, {}, [':ready', None, None]
    vals = list(vals)
    for it, cut in case['its']:
        k, eff = it[0], []
        if k == 'e': t = '(string/write %s)' % it[1]; out = vals.pop(0)
        elif k == 'def': vs[it[1]] = it[2]; t = '(def v%d %d)' % (it[1], it[2]); out = str(it[2])
        elif k in ('set', 'var', 'fun', 'call', 'mac', 'use', 'two', 'ask', 'hist', 'block', 'exit', 'blank', 'err', 'eff', 'wild', 'long'):
            if k in ('set', 'var') and it[1] not in vs or k == 'fun' and it[2] not in vs or k == 'call' and it[1] not in fs or k == 'use' and it[1] not in ms: raise Invalid()
            if k == 'set': vs[it[1]] = (vs[it[1]] * 3 + it[2]) % 1000; t = '(do (set! v%d (rem (+ (* 3 v%d) %d) 1000)) v%d)' % (it[1], it[1], it[2], it[1]); out = str(vs[it[1]])
            elif k == 'var': t = 'v%d' % it[1]; out = str(vs[it[1]])
            elif k == 'fun': fs[it[1]] = it[2]; t = '(do (defn f%d (x) (+ x v%d)) :defined)' % (it[1], it[2]); out = ':defined'
            elif k == 'call': t = '(f%d %d)' % (it[1], it[2]); out = str(it[2] + vs[fs[it[1]]])
            elif k == 'mac': ms[it[1]] = it[2]; t = "(do (defmacro m%d (x) (list 'list x %d)) :mac)" % (it[1], it[2]); out = ':mac'
            elif k == 'use': t = '(m%d %d)' % (it[1], it[2]); out = '(%d %d)' % (it[2], ms[it[1]])
            elif k == 'wild':
                if not wild.whole(it[1]): raise Invalid()
                t = '(do (try (fn (e) 1) %s) %d)' % (it[1], it[2]); out = str(it[2])
            elif k == 'long':
                # a string literal about as long as the reader's own buffers
                if it[1] < 1: raise Invalid()
                w = ''.join(chr(97 + (j * j + it[2]) % 23) for j in range(it[1]))
                n = min(it[1], it[2] + 5)
                t = '(let ((s "%s")) (string/write (list (:length s) (:cut s %d %d) (:cut s 0 3))))' % (w, len(w) - n, len(w)); out = '(%d "%s" "%s")' % (len(w), w[-n:], w[:3])
            elif k == 'eff': t = '(log! %d)' % it[1]; out = str(it[1]); eff = [it[1]]
            elif k == 'two': t = '(log! %d) (list %d 2)' % (it[1], it[2]); out = '(%d 2)' % it[2]; eff = [it[1]]
            elif k == 'hist':
                if not case['full'] or not 1 <= it[1] <= 3 or hist[it[1] - 1] is None: continue
                t = '*%d' % it[1]; out = hist[it[1] - 1]
            elif k == 'blank':
                if it[1].strip() and not it[1].startswith(';') or '\n' in it[1]: raise Invalid()
                L.append((it[1], ['\r', P], [])); continue
            elif k == 'ask':
                if '\n' in it[1]: raise Invalid()
                L.append(('(string/write (readline "Q"))', ['Q'], []))
                v = '"%s"' % it[1].replace('"', '\\"')
                L.append((it[1], [v + '\r\n', P], [])); hist = [v] + hist[:2]; continue
            elif k == 'block':
                if not it[1]: raise Invalid()
                L.append(('[cmd]', [], []))
                for j, v in enumerate(it[1]): L.append(('(log! %d)' % v, [], []))
                L.append(('[/cmd]', ['%d\r\n' % it[1][-1], P], it[1])); hist = [str(it[1][-1])] + hist[:2]; continue
            elif k == 'exit':
                if not 0 <= it[1] <= 255: raise Invalid()
                L.append(('(exit %d)' % it[1], [], [])); return L, it[1]
            elif k == 'err':
                if not 0 <= it[1] < len(ERRS): raise Invalid()
                t, ty = ERRS[it[1]]
                ls = split(t, cut) if '"' not in t and ')' != t and '))' != t[-2:] else [t]
                for l in ls[:-1]: L.append((l, ['... '], []))
                L.append((ls[-1], [('err', ty), P], [7777] if '7777' in t else [])); continue
        else: raise Invalid()
        ls = split(t, cut)
        # the last line only sees the effects
        for l in ls[:-1]: L.append((l, ['... '], []))
        L.append((ls[-1], [out + '\r\n', P], eff))
        hist = [out] + hist[:2]
    return L, None

ANSI = re.compile(r'\x1b\[[0-9;]*m')

def match(out, exp):
    """How many items of exp the text out consists of, and where the first one missing would start."""
    at = 0
    for j, e in enumerate(exp):
        if isinstance(e, tuple):
            if e[1] and not out.startswith(e[1], at): return j, at
            n = out.find('\n> ', at)
            if n < 0: return j, at
            at = n + 1
        elif out.startswith(e, at): at += len(e)
        else: return j, at
    return len(exp), at

def scen(case, lines=None):
    s = Scenario().args('nujel')
    if not case['full']: s.args('-r')
    return s.add('loglevel 2')

def execute(case, env, o):
    if not case['runs'] or any('\n' in e for e in pure(case)): raise Invalid()
    if any(len(c) != 2 or not 0 <= c[0] <= 1000000 or c[1] not in ('\n', '\n\n', '  \n ', ' ; note\n') for it, cut in case['its'] for c in cut): raise Invalid()
    if any(f['err'] <= 0 or f['op'] not in ('inread', 'outwrite') for x in case['runs'] for f in x['f']): raise Invalid()
    w = env.world(case.get('asan', False))
    ps = pure(case)
    vals = []
    if ps:
        b = o.see(w.run(nj.steps(['(string/write %s)' % e for e in ps], raw=True)))
        if b.kind != 'exit': raise Invalid()
        res = nj.results(b)
        for j in range(len(ps)):
            v = res.get(j)
            if not isinstance(v, tuple) or b'\n' in v[1] or b'\r' in v[1]: raise Invalid()
            vals.append(v[1].decode('latin-1'))
    L, status = session(case, vals)
    text = '\n'.join(l for l, _, _ in L) + ('\n' if case['nl'] or L[-1][0] == '' else '')
    data = text.encode('latin-1')
    o.probe('full' if case['full'] else 'small')
    banner = ('Nujel REPL' if case['full'] else 'Nujel TinyREPL') + ' is ready for service!\r\n'
    for it, cut in case['its']:
        for a, b in (('err', 'error'), ('block', 'block'), ('ask', 'nested-input'), ('exit', 'exit'), ('hist', 'history'), ('long', 'long-literal')):
            if it[0] == a: o.probe(b)
    if any('... ' in e for _, e, _ in L): o.probe('multi-line')
    if status is None: o.probe('eof')
    if not case['nl']: o.probe('unterminated')
    base = None
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl, d, upto = [], data, len(L)
        if x and x['hang'] is not None:
            upto = x['hang'] * len(L) // 1000000
            d = ''.join(l + '\n' for l, _, _ in L[:upto]).encode('latin-1')
            s.add('stdinhang')
        if not x: s.stdin(0, d)
        else:
            t, at = 0, 0
            cuts = sorted(set(c * len(d) // 1000000 for c in x['cuts']))
            for j, c in enumerate(cuts + [len(d)]):
                if j < len(x['dt']): t += x['dt'][j]
                if d[at:c]: s.stdin(t, d[at:c])
                at = c
            if len(cuts) > 1: o.nontrivial = True
            for l in x['env']: s.add(l)
            n = nj.calls(base)
            fl = nj.place(x['f'], dict(inread=2 + len(x['cuts']), outwrite=n.get('outwrite', len([1 for l in base.log.split('\n') if l.startswith('out ')]))))
            for l in fl: s.add(l)
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        if base is None: base = r
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        if 'wait until' in r.log: o.probe('waiting')
        if r.head['gcs'] and x: o.probe('collected')
        out = ANSI.sub('', r.out.decode('latin-1'))
        effs = r.files().get('/sim/eff', b'').decode('latin-1').split()
        want = [str(v) for _, _, e in L[:upto] for v in e]
        hung = x and x['hang'] is not None and not (status is not None and upto == len(L))
        exp = [banner, '> '] + [q for _, e, _ in L[:upto] for q in e]
        if not hung and status is None: exp.append('Adios, cowboy...\r\n')
        if 'FAULT' not in r.log:
            if hung and r.kind != 'blocked' or not hung and r.kind != 'exit': o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, out[-200:])); return
            m, at = match(out, exp)
            if m < len(exp): o.violation('transcript', '%spart %d: %r instead of %r; before it: %r' % (what, m, out[at:at + 200], exp[m], out[max(0, at - 120):at])); return
            if at != len(out): o.violation('transcript', '%sunexpected output at the end: %r' % (what, out[at:][:300])); return
            if effs != want: o.violation('effects', '%sthe effects were %s instead of %s' % (what, effs, want)); return
            if not hung and r.status != (status or 0): o.violation('ending', '%sstatus %s instead of %s' % (what, r.status, status)); return
            continue
        o.nontrivial = True
        if r.kind != 'exit': o.violation('ending', '%sended by %s %s: %r' % (what, r.kind, r.status, out[-200:])); return
        # what was evaluated was evaluated once and in order
        q = iter(want)
        if not all(v in q for v in effs): o.violation('effects', '%sthe effects were %s, expected some of %s' % (what, effs, want)); return
        if 'FAULT inread' in r.log:
            o.probe('read-failed')
            m, at = match(out, exp)
            if m < len(exp) and ':io-error' not in out[at:]: o.violation('transcript', '%spart %d: %r instead of %r or an error' % (what, m, out[at:at + 200], exp[m])); return
            if effs != want and r.status == 0 and ':io-error' not in out: o.violation('silent', '%sthe effects were %s instead of %s, status 0, and no error was shown' % (what, effs, want)); return
        else:
            o.probe('output-failed')
            if effs != want and r.status == 0: o.violation('silent', '%sthe effects were %s instead of %s, but the status is 0' % (what, effs, want)); return
    o.key = repr((case['full'], case['its'], case['runs']))
