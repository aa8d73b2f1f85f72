"""C20: line input returns every line exactly, however it arrives."""
import nj, gcsched
from nj import E
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C20'
LEVEL = 'exploration'
RULE = ('case = bytes made of lines of seeded lengths and contents, arriving on standard input or in a file, read by a seeded mix of the line and character procedures, once arriving at once and '
        'then split over reads and time, with collections, small buffers and failing reads; each result compared with the lines sent; non-trivial when the input was split or a read failed; distinct by input and arrivals')
ASSUMPTIONS = ['end of input is final: bytes arriving after it are not read']
NOTE = 'Sampled inputs and arrivals against splitting the bytes at line feeds. Trusts the model of standard input and glibc stdio.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['long-line', 'empty-line', 'unterminated', 'split-inside-line', 'read-error', 'waited', 'prompt-before-wait', 'from-file']
FAULTS = {'inread': [E['EIO'], E['EINTR'], E['EAGAIN']]}
WAYS = ['(read-line)', '(input)', '(readline "p> ")', 'raw', 'getc']

def budget(tier): return 800 if tier == 'quick' else 40000

def gen(R, i, tier):
    L = []
    for _ in range(R.randrange(0, 9)):
        n = R.choice([0, 0, 1, 2, 5, 17, 40, 126, 127, 128, 129, 130, 255, 256, 257, 600, 1500]) if R.random() < .99 else R.choice([5000, 33000, 65535, 65536, 65700, 70000])
        m = R.randrange(3)
        if n > 60000: m = 1
        if m == 0: b = bytes(R.choice([c for c in range(256) if c != 10]) for _ in range(n))
        elif m == 1: b = bytes(97 + (j + n) % 26 for j in range(n))
        else: b = bytes(R.choice(b'ab \t\r\0\xff"(#') for _ in range(n))
        L.append(b)
    data = b'\n'.join(L) + (b'\n' if R.random() < .6 else b'')
    src = 'file' if R.random() < .15 else 'stdin'
    mode = 'prompt' if R.random() < .15 and src == 'stdin' else 'mix'
    n = len(data.split(b'\n')) + 2
    ways = [WAYS[2]] * n if mode == 'prompt' else [R.choice(WAYS if R.random() < .5 else WAYS[:4]) for _ in range(n + 2)]
    if src == 'file': ways = [R.choice(['raw', 'raw', 'getc']) for _ in range(n + 2)]
    runs = []
    for _ in range(4):
        cuts = sorted(R.randrange(1000001) for _ in range(R.choice([0, 1, 2, 5, 20])))
        r = {'cuts': cuts, 'dt': [R.choice([0, 0, 1, 50, 1000, 100000]) for _ in range(len(cuts) + 1)], 'f': [], 'env': []}
        if R.random() < .6: r['env'].append('chunk in ' + ' '.join(str(R.choice([1, 2, 3, 10, 100, 0])) for _ in range(R.randrange(1, 5))))
        if src == 'file': r['env'] = nj.io_env(R)
        if R.random() < .4: r['env'].append('bufsize %d' % R.choice([0, 1, 7, 64, 128, 1000]))
        if R.random() < .3 and src == 'stdin': r['f'] = nj.gen_faults(R, FAULTS, 1)
        if R.random() < .5: r['gc'] = gcsched.gen(R, 14)
        runs.append(r)
    return {'data': data.hex(), 'src': src, 'mode': mode, 'ways': ways, 'runs': runs, 'asan': R.random() < .1}

def model(data, ways):
    pos, res = 0, []
    for w in ways:
        if w == 'getc':
            if pos < len(data): res.append(str(data[pos])); pos += 1
            else: res.append(':end-of-file')
        elif pos >= len(data): res.append('#nil')
        else:
            j = data.find(b'\n', pos)
            if j < 0: res.append(('string', data[pos:])); pos = len(data)
            else: res.append(('string', data[pos:j])); pos = j + 1
    return res

def scen(case):
    port = 'stdin' if case['src'] == 'stdin' else 'port'
    ex = {'raw': '(let ((n (read-line/raw %s lb))) (if n (buffer->string lb n) #nil))' % port, 'getc': '(:char-read %s)' % port}
    xs = [ex.get(w, w) for w in case['ways']]
    pre = '(def lb (buffer/allocate 3))'
    if case['src'] == 'file': pre += '(def port (:new InputPort (file/open-input* "in")))'
    s = nj.steps(xs, pre=pre, raw=True).add('loglevel 2')
    if case['mode'] == 'prompt': s.add('outbuf 65536')
    return s

def execute(case, env, o):
    data = bytes.fromhex(case['data'])
    if not case['ways'] or any(w not in WAYS for w in case['ways']) or case['src'] not in ('stdin', 'file') or case['mode'] not in ('mix', 'prompt'): raise Invalid()
    if case['mode'] == 'prompt' and any(w != WAYS[2] for w in case['ways']): raise Invalid()
    exp = model(data, case['ways'])
    w = env.world(case.get('asan', False))
    if any(len(l) > 128 for l in data.split(b'\n')): o.probe('long-line')
    if b'\n\n' in data: o.probe('empty-line')
    if data and data[-1:] != b'\n': o.probe('unterminated')
    if case['src'] == 'file': o.probe('from-file')
    base = None
    for k, x in enumerate([None] + case['runs']):
        s = scen(case)
        fl = []
        if case['src'] == 'file': s.file('/sim/in', data)
        elif x is None: s.stdin(0, data)
        else:
            cuts = sorted(set(c * len(data) // 1000000 for c in x['cuts']))
            t, at = 0, 0
            for j, c in enumerate(cuts + [len(data)]):
                if j < len(x['dt']): t += x['dt'][j]
                if data[at:c]: s.stdin(t, data[at:c])
                at = c
            if len(cuts) > 1: o.probe('split-inside-line'); o.nontrivial = True
        if x:
            for l in x['env']: s.add(l)
            fl = nj.place(x['f'], dict(inread=3 + 2 * len(x['cuts'])))
            for l in fl: s.add(l)
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        if base is None: base = r
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if 'wait until' in r.log: o.probe('waited')
        res = nj.results(r)
        fs = [s for s, l, d in nj.timeline(r) if l.startswith('FAULT')] if case['mode'] == 'mix' else ([0] if 'FAULT' in r.log else [])
        end = min(fs) if fs else len(exp)
        for j in range(end):
            if res.get(j) != exp[j]:
                o.violation('model', '%sstep %d %s gave %s instead of %s' % (what, j, case['ways'][j], short(res.get(j)), short(exp[j]))); return
        if fs and case['mode'] == 'mix':
            o.probe('read-error'); o.nontrivial = True
            if res.get(end) != '(:exc :io-error)':
                o.violation('error', '%sstep %d %s gave %s though the read failed' % (what, end, case['ways'][end], short(res.get(end)))); return
        if case['mode'] == 'prompt':
            out = 0
            for l, d in r.events():
                if l.startswith('out '): out += int(l.split(' ')[1])
                elif l.startswith('stdin') or l.startswith('wait'):
                    if not r.out[:out].endswith(b'p> '):
                        o.violation('prompt', '%sthe prompt was not shown before waiting for input: %r' % (what, r.out[:out][-60:])); return
                    o.probe('prompt-before-wait')
    o.key = repr((case['data'], case['ways'], case['runs']))

def short(v):
    if isinstance(v, tuple): return '%s of %d bytes %r' % (v[0], len(v[1]), v[1][:80])
    return v
