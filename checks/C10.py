"""C10: terminal input decodes the same however it arrives; the terminal is restored."""
import nj, gcsched
from nj import E
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C10'
LEVEL = 'exploration'
RULE = ('case = a seeded stream of keys and escape sequences, read by one of five kinds of consumer through TermApp, split into seeded reads with seeded arrival times, with reads that fail and collections injected, '
        'a seeded number of raw-mode requests on either stream with failing terminal calls, from seeded initial terminal attributes, and one of eight ways to end; '
        'the decoded events are compared with a table of the sequences and the terminal attributes with what they were; non-trivial when a sequence was split over reads or raw mode was entered; distinct by bytes, arrival and ending')
ASSUMPTIONS = ['the size report comes before any key', 'bytes that belong to no known sequence may be refused', 'the kernel discards no unread input when attributes are set', 'a process that is killed cannot restore the terminal']
NOTE = 'Sampled key streams, arrival patterns and endings against a table of escape sequences; the terminal is a stand-in for the kernel driver.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['split-sequence', 'delayed', 'f-key', 'meta', 'utf8-meta', 'arrow', 'raw-twice', 'raw-failed', 'raw-after-failure', 'not-a-terminal', 'read-fault', 'end-exit', 'end-throw', 'end-return', 'end-oom', 'eventlog', 'restored', 'unknown-sequence', 'pending']

MODES = ['drain', 'one', 'poll-events', 'available', 'feed']
ENDS = ['return', 'return', 'exit', 'throw', 'unbound', 'handler', 'nested', 'oom']

def budget(tier): return 330 if tier == 'quick' else 30000

class Unknown(Exception): pass

def chars(b):
    if b == 0: return 'C-spc'
    if b == 9: return 'tab'
    if b == 13: return 'ret'
    if b == 31: return 'C-/'
    if b < 27: return 'C-' + chr(96 + b)
    if 27 < b < 31: return 'C-' + chr(64 + b)
    if b == 127: return 'backspace'

def decode(data):
    """(events, bytes left undecoded)"""
    L, i = [], 0
    while i < len(data):
        b = data[i]
        g = lambda k: data[i + k] if i + k < len(data) else None
        if b in (194, 195):
            d = g(1)
            if d is None: return L, data[i:]
            if b == 194 and 160 <= d <= 191: L.append('k :M-' + chr(d - 128)); i += 2; continue
            if b == 195 and 129 <= d <= 186: L.append('k :M-' + chr(d - 64)); i += 2; continue
            raise Unknown()
        if b == 27:
            d = g(1)
            if d is None: return L, data[i:]
            if d == 27: L.append('k :escape'); i += 2; continue
            if d == 127: L.append('k :M-backspace'); i += 2; continue
            if d == 9: L.append('k :M-tab'); i += 2; continue
            if d == 79:
                e = g(2)
                if e is None: return L, data[i:]
                if e == 0: raise Unknown()
                if 80 <= e < 92: L.append('k :F%d' % (e - 79)); i += 3
                else: L.append('k :M-O'); i += 2
                continue
            if d == 91:
                e = g(2)
                if e is None: return L, data[i:]
                k = {65: 'up', 66: 'down', 67: 'right', 68: 'left', 70: 'end', 72: 'home'}.get(e)
                if k: L.append('k :' + k); i += 3; continue
                k = {50: 'insert', 51: 'delete', 53: 'page-up', 54: 'page-down'}.get(e)
                if not k: raise Unknown()
                f = g(3)
                if f is None: return L, data[i:]
                if f == 55: k = 'print'
                elif f != 126: raise Unknown()
                L.append('k :' + k); i += 4; continue
            if 32 <= d < 127: L.append('k :M-' + chr(d)); i += 2; continue
            raise Unknown()
        k = chars(b)
        if k: L.append('k :' + k)
        elif 32 <= b < 127: L.append('i %d %s' % (b, chr(b)))
        else: raise Unknown()
        i += 1
    return L, b''

def token(R):
    k = R.randrange(14)
    if k < 3: return bytes([R.randrange(32, 127)])
    if k < 5: return bytes([R.choice([x for x in range(128) if (x < 32 or x == 127) and x != 27])])
    if k < 6: return bytes([27, R.choice([27, 127, 9])])
    if k < 8: return bytes([27, R.choice([x for x in range(32, 127) if x not in (79, 91)])])
    if k < 9: return bytes([27, 79, R.randrange(80, 92)])
    if k < 10: return bytes([27, 79])
    if k < 12: return bytes([27, 91, R.choice([65, 66, 67, 68, 70, 72])])
    if k < 13: return bytes([27, 91, R.choice([50, 51, 53, 54]), R.choice([126, 126, 126, 55])])
    return bytes([194, R.randrange(160, 192)]) if R.random() < .5 else bytes([195, R.randrange(129, 187)])

def arrivals(R, n):
    """How n bytes arrive: [[delay, count]], and the sizes of reads."""
    k = R.randrange(5)
    if k == 0: L = [[0, n]]
    elif k == 1: L = [[R.choice([0, 1, 20]), 1] for _ in range(n)]
    else:
        L, left = [], n
        while left > 0:
            m = min(left, R.randrange(1, R.choice([2, 4, 12])))
            L.append([R.choice([0, 0, 1, 5, 100, 100000]), m]); left -= m
    return {'t': L, 'c': [R.choice([1, 2, 3, 16, 0]) for _ in range(R.randrange(1, 5))] if R.random() < .6 else None}

def gen(R, i, tier):
    size = [R.choice([1, 2, 9, 24, 40]), R.choice([1, 2, 10, 80])]
    while True:
        data = b''.join(token(R) for _ in range(R.choice([0, 1, 3, 8, 25, 25, 400])))
        if R.random() < .15: data += bytes(R.choice([27, 91, 79, 48, 50, 126, 194, 195, 200, 0, 255, R.randrange(256)]) for _ in range(R.randrange(1, 5)))
        if R.random() < .1: data += R.choice([b'\x1b', b'\x1b[', b'\x1bO', b'\x1b[2', b'\xc3'])
        try: decode(data); break
        except Unknown:
            if R.random() < .3: break
    attrs = [R.getrandbits(16) for _ in range(4)] if R.random() < .7 else [0x502, 5, 0xbf, 0x8a3b]
    attrs[2] = attrs[2] & ~0x30 | R.choice([0x30, 0x30, 0x20, 0])
    raws = [R.choice(['stdin', 'stdin', 'stdout', 'port', 'vt', 'file']) for _ in range(R.choice([0, 0, 1, 2, 5]))]
    case = {'size': size, 'data': data.hex(), 'mode': R.choice(MODES), 'attrs': attrs, 'raws': raws, 'end': R.choice(ENDS[:-1] * 4 + ENDS[-1:]), 'asan': R.random() < .08}
    if R.random() < .08: case['notty'] = 1
    if R.random() < .06:
        data = b''.join(token(R) for _ in range(R.choice([0, 2, 8])))
        case['eventlog'] = 1
        case['size'] = [R.randrange(4, 30), R.randrange(20, 90)]
        case['data'] = bytes(x for x in data.replace(b'q', b'')).hex()
    n = len(data)
    case['runs'] = []
    for k in range(3):
        r = dict(arrivals(R, n), st=R.choice([0, 0, 1, 3]))
        if k and R.random() < .7: r['gc'] = gcsched.gen(R, 12)
        if k and R.random() < .5: r['f'] = nj.gen_faults(R, {'tcget': [E['EIO'], E['ENOTTY'], E['EINTR']], 'tcset': [E['EINTR'], E['EIO']], 'inread': [E['EIO'], E['EAGAIN'], E['EINTR']]}, R.choice([1, 1, 2]))
        case['runs'].append(r)
    return case

PRE = r'''
(import (TermApp) :term/TermApp)
(import (VT100) :term/VT100)
(def out (:new OutputPort stdout*))
(defn say l (:block-write out (apply cat (cons "\n@" l))) (:block-write out "\n"))
(defn show (e) (when e (case e.T (:key-down (say "k " (string/write e.key))) (:input (say "i " e.code " " e.char)) (:raw-input (say "r " e.code)) (otherwise (say "? " (string/write e))))))
(def n 0)
(defn oops (e) (say "x " (string/write (car e))) (set! n 1000000))
(defn drain (app) (def e #t) (while e (set! e (:get-events app)) (show e)))
'''

def prog(case):
    n = len(bytes.fromhex(case['data']))
    m = case['mode']
    L = [PRE]
    app = '(def app (:new TermApp)) (say "size " app.width " " app.height)'
    raw = {'stdin': '(file/raw* stdin*)', 'stdout': '(file/raw* stdout*)', 'port': '(:raw! (:new InputPort stdin*))', 'vt': '(:new VT100)', 'file': '(let ((h (file/open-input* "/sim/f"))) (file/raw* h) (file/close* h))'}
    ra = [raw[x] for x in case['raws']]
    L += ra[:len(ra) // 2] + [app]
    loop = {'drain': '(:poll-input app) (drain app)',
            'one': '(:poll-input app) (show (:get-events app))',
            'poll-events': '(show (:poll-events app)) (drain app)',
            'feed': '(:parse-input-key app (:char-read in)) (drain app)'}.get(m)
    if m == 'feed': L.append('(def in (:new InputPort stdin*))')
    # polls until as many bytes have come as there are; a read that failed is tried again
    if m == 'available':
        L.append('(while (< n %d) (try oops (:poll-input app) (set! n (+ n 1)) (drain app) (while (and (< n %d) (not (:input-would-block? app))) (:poll-input app) (set! n (+ n 1)) (drain app))))' % (n, n))
    else: L.append('(while (< n %d) (try oops %s (set! n (+ n 1))))' % (n, loop))
    L.append('(drain app)')
    L += ra[len(ra) // 2:]
    L.append('(say "end")')
    L.append({'return': '1', 'exit': '(exit 3)', 'throw': '(throw (list :gone 1))', 'unbound': '(no-such-thing 1)', 'handler': '(try (fn (e) (exit 4)) (car! 1 2 3) (throw :a))',
              'nested': '(try (fn (e) (throw e)) (try (fn (e) (throw e)) (throw (list :deep 2))))', 'oom': '(def l #nil) (while #t (set! l (cons 1 l)))'}[case['end']])
    return '(do ' + ' '.join(L[1:]) + ')' if False else '\n'.join(L)

def scen(case, r):
    data = bytes.fromhex(case['data'])
    if case.get('eventlog'):
        s = nj.Scenario().args('nujel', '-m', 'app/EventLog')
        data += b'q'
    else:
        s = nj.Scenario().args('nujel', '/sim/p.nuj')
        s.file('/sim/p.nuj', prog(case).encode('latin-1'))
    s.dir('/sim').file('/sim/f', b'x')
    s.add('loglevel 2').add('tty %x %x %x %x' % tuple(case['attrs'])).add('maxsteps 40000000')
    if case.get('notty'): s.add('notty')
    rep = b'\x1b[%d;%dR' % (case['size'][0], case['size'][1])
    t, i = r['st'], 0
    if r['st'] == 3:
        for k in range(len(rep)): s.stdin(t, rep[k:k+1]); t += 2
    else: s.stdin(t, rep)
    for dt, m in r['t']:
        t += dt
        if data[i:i+m]: s.stdin(t, data[i:i+m])
        i += m
    if data[i:]: s.stdin(t + 1, data[i:])
    if r['c']: s.add('chunk in ' + ' '.join(map(str, r['c'])))
    return s

def split_seq(case, r):
    """Does a sequence come in pieces?"""
    data, i, cuts = bytes.fromhex(case['data']), 0, set()
    for dt, m in r['t']: i += m; cuts.add(i)
    i = 0
    while i < len(data):
        for n in range(1, 5):
            try:
                if len(decode(data[i:i+n])[0]) == 1 and not decode(data[i:i+n])[1]: break
            except Unknown: return False
        if any(i < c < i + n for c in cuts): return True
        i += n
    return False

def judge(case, r, o, what):
    data = bytes.fromhex(case['data'])
    log = r.log.split('\n')
    at = [k for k, l in enumerate(log) if l.startswith('exit ')]
    if r.kind != 'exit' or not at: return '%sended by %s %s' % (what, r.kind, r.status)
    tail = log[at[0]:]
    sets = [l for l in log[:at[0]] if l.startswith('tcsetattr')]
    lost = [l for l in tail if l.startswith('FAULT tcset')]
    i, p, c, l = case['attrs']
    # raw mode: no BRKINT ICRNL INPCK ISTRIP IXON, no OPOST, CS8, no ECHO ICANON IEXTEN ISIG
    raw = 'i%x o%x c%x l%x' % (i & ~0o2462, p & ~1, c | 0o60, l & ~0o100013)
    first = 'i%x o%x c%x l%x' % (i, p, c, l)
    for x in sets:
        if x.split(' ', 2)[2] != raw: return '%sthe terminal was set to %s, raw mode of %s is %s' % (what, x, first, raw)
    tf = [x for x in log[:at[0]] if x.startswith('FAULT tc')]
    if case.get('notty'): o.probe('not-a-terminal')
    else:
        end = [x for x in tail if x.startswith('tty ')]
        if not end: return '%sno final attributes' % what
        if not lost and end[0][4:] != first: return '%sthe terminal was left at %s, it was %s at first (set %d times)' % (what, end[0][4:], first, len(sets))
        if sets: o.probe('restored'); o.nontrivial = True
        if len(sets) > 1: o.probe('raw-twice')
        if tf: o.probe('raw-failed')
        if tf and sets: o.probe('raw-after-failure')
        # the app and each request made the terminal raw, unless the system refused
        need = 1 + (0 if case.get('eventlog') else sum(x != 'file' for x in case['raws']))
        if not need - len(tf) <= len(sets) <= need and not any(x.startswith('FAULT inread') for x in log): return '%sraw mode was asked for %d times but set %d times and refused %d times' % (what, need, len(sets), len(tf))
    if case.get('eventlog'):
        o.probe('eventlog')
        if r.status: return '%sthe program ended with %d' % (what, r.status)
        return
    ev = [x[1:] for x in r.out.decode('latin-1').split('\n') if x[:1] == '@']
    dec = [x for x in ev if x[0] in 'ki?']
    rd = [x for x in log[:at[0]] if x.startswith('FAULT inread')]
    bad = [x for x in ev if x[0] == 'x']
    st = {'return': 0, 'exit': 3, 'handler': 4, 'throw': 1, 'unbound': 1, 'nested': 1, 'oom': 123}[case['end']]
    if case.get('mode') != 'x':
        if r.status != st: return '%sthe program ended with %d instead of %d' % (what, r.status, st)
        if 'end' not in ev: return '%sthe program did not get to its end' % what
    o.probe({'exit': 'end-exit', 'handler': 'end-exit', 'return': 'end-return', 'oom': 'end-oom'}.get(case['end'], 'end-throw'))
    if 'size %d %d' % (case['size'][1], case['size'][0]) not in ev: return '%sthe size %s was taken for %s' % (what, case['size'], [x for x in ev if x[:4] == 'size'])
    if rd: o.probe('read-fault')
    if bad != ['x :io-error'] * (len(rd) > 0): return '%sreading reported %s after %d failed reads' % (what, bad[:8], len(rd))
    codes = [int(x[2:]) for x in ev if x[0] == 'r']
    if rd:
        # nothing after a failed read is sure to be read
        if len(codes) > len(data): return '%s%d bytes were reported, there are %d' % (what, len(codes), len(data))
        data = data[:len(codes)]
    want, left = decode(data)
    if left: o.probe('pending')
    if dec != want:
        k = next((k for k in range(min(len(dec), len(want))) if dec[k] != want[k]), min(len(dec), len(want)))
        return '%sfrom %s came the events %s, it should have been %s (first difference at %d: %s instead of %s)' % (what, data.hex(), dec[:40], want[:40], k, dec[k:k+1], want[k:k+1])
    if codes != list(data): return '%sthe bytes read were reported as %s, they were %s' % (what, codes[:60], list(data)[:60])
    if any('M-' in x for x in want): o.probe('meta')
    if b'\xc3' in data or b'\xc2' in data: o.probe('utf8-meta')
    if any(x.startswith('k :F') for x in want): o.probe('f-key')
    if any(x in ('k :up', 'k :left', 'k :down', 'k :right') for x in want): o.probe('arrow')

def execute(case, env, o):
    data = bytes.fromhex(case['data'])
    if min(case['size']) < 1: raise Invalid()
    if case.get('eventlog') and (b'q' in data or case['size'][0] < 4 or case['size'][1] < 20): raise Invalid()
    try: decode(data); known = True
    except Unknown: known = False
    if case.get('eventlog') and not known: raise Invalid()
    w = env.world(case.get('asan', False))
    base = None
    for k, x in enumerate(case['runs']):
        if sum(m for _, m in x['t']) > len(data) or any(t < 0 or m <= 0 for t, m in x['t']): x = dict(x, t=[[max(0, t), max(1, m)] for t, m in x['t']])
        s = scen(case, x)
        if base is None:
            if x.get('f') or x.get('gc'): raise Invalid()
        else:
            if x.get('f'):
                # the size is read before the first key; a read that fails there ends the program
                n = nj.calls(base)
                for l in nj.place([f for f in x['f'] if f['op'] != 'inread'], n): s.add(l)
                if not case.get('eventlog'):
                    for f in x['f']:
                        if f['op'] == 'inread' and f['err'] > 0: s.add('fault inread %d %d' % (8 + f['pos'] % (len(data) + 8), f['err']))
            if x.get('gc'):
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'run %d %s: ' % (k, {y: x[y] for y in x if y != 't'})
        if always_bad(r, o, what): return
        if known: m = judge(case, r, o, what)
        else:
            o.probe('unknown-sequence')
            m = None
            if base is not None and not x.get('f'):
                a, b = ([y for y in q.out.decode('latin-1').split('\n') if y[:1] == '@'] for q in (base, r))
                if a != b or (r.kind, r.status) != (base.kind, base.status): m = '%safter another arrival the events are %s instead of %s' % (what, b[-30:], a[-30:])
        if m: o.violation('model', m); return
        if base is None: base = r
        if split_seq(case, x): o.probe('split-sequence'); o.nontrivial = True
        if any(t for t, _ in x['t']): o.probe('delayed')
    o.key = repr((case['data'], case['mode'], case['raws'], case['end'], case['runs']))

def shrink(case):
    for k in range(1, len(case['runs'])):
        q = case['runs'][k]
        yield dict(case, runs=case['runs'][:k] + case['runs'][k+1:])
        if q.get('gc'): yield dict(case, runs=case['runs'][:k] + [{a: q[a] for a in q if a != 'gc'}] + case['runs'][k+1:])
        for j in range(len(q.get('f', []))): yield dict(case, runs=case['runs'][:k] + [dict(q, f=q['f'][:j] + q['f'][j+1:])] + case['runs'][k+1:])
    d = bytes.fromhex(case['data'])
    n = len(d)
    for a in (n // 2, n // 4, 2, 1):
        if a:
            for k in range(0, n, a): yield dict(case, data=(d[:k] + d[k+a:]).hex())
    for k in range(len(case['raws'])): yield dict(case, raws=case['raws'][:k] + case['raws'][k+1:])
    if case['end'] != 'return': yield dict(case, end='return')
    if case['mode'] != 'drain': yield dict(case, mode='drain')
    if case['size'] != [24, 80]: yield dict(case, size=[24, 80])
    for k in range(len(case['runs'])):
        if case['runs'][k]['t'] != [[0, n]] and n: yield dict(case, runs=case['runs'][:k] + [dict(case['runs'][k], t=[[0, n]], c=None)] + case['runs'][k+1:])
    if case.get('asan'): yield dict(case, asan=False)
