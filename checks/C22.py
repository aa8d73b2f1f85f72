"""C22: the Gopher browser shows what the servers sent and follows links and history."""
import nj, gcsched, netsim
import C10, C16
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C22'
LEVEL = 'exploration'
RULE = ('case = a handful of seeded servers with menus that link to each other, texts, binaries and addresses that fail, a terminal size and a history of keys (lines up and down, pages, links, back, unbound keys, quit) arriving in seeded pieces, '
        'under seeded network segmentation, failing network calls and collections; whenever the browser waits for a key the screen, reconstructed by a terminal emulator, is compared with a model of pages, selection, scrolling and history, and every request with the one the model makes; '
        'non-trivial when a link was followed; distinct by servers, keys and arrival')
ASSUMPTIONS = ['documents of printable ASCII characters', 'a terminal of at least 8 lines and 30 columns that cuts long lines', 'selectors that are empty or start with a slash (the URL notation of the browser has no other)', 'in-order bytes, then end of stream, reset or silence']
NOTE = 'Sampled browsing histories against a reference model, through a terminal emulator, with sampled network failures and collections.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['menu', 'text', 'binary', 'link', 'back', 'deep-history', 'scrolled-menu', 'scrolled-text', 'load-failed', 'reset', 'stall', 'fault', 'despite-fault', 'second-address', 'empty-page', 'no-links', 'split-arrival', 'unbound', 'other-port', 'long-line', 'quit-q', 'quit-cx', 'bad-url', 'same-server']

def budget(tier): return 400 if tier == 'quick' else 12000

AL = 'abcdefghijklmnopqrstuvwxyz ABCXYZ0189()[]{}~"\'\\.,;#:'
def word(R, n): return ''.join(R.choice(AL) for _ in range(n))
SEL = 'abcdefghijklmnopqrstuvwxyzABCXYZ0189-/._~!$&\'()*+,;=:@%?#[]|^"<>{} '
KEYS = {'up': b'\x1b[A', 'down': b'\x1b[B', 'right': b'\x1b[C', 'left': b'\x1b[D', 'pgup': b'\x1b[5~', 'pgdn': b'\x1b[6~', 'home': b'\x1b[H', 'C-p': b'\x10', 'C-n': b'\x0e', 'cx': b'\x18\x18', 'alt': b'\x1bx'}
NEXT, PREV, LINK, BACK, PGDN, PGUP = ['down', 'C-n', 'j'], ['up', 'C-p', 'k'], ['right', 'l'], ['left', 'h'], ['pgdn', 'J'], ['pgup', 'K']
OTHER = ['x', ' ', '\r', 'cx', 'alt', 'home', '1', '~', '[', 'A', '\t', '\0']
NAMES = {'0': '(TXT)', '1': '(DIR)', '2': '(NAM)', '3': '(ERR)', '4': '(BHX)', '5': '(DOS)', '6': '(UUE)', '7': '(FTS)', '8': '(TEL)', '9': '(BIN)', 'g': '(GIF)', 'I': '(IMG)', 'T': '(IBM)', '<': '(SND)', 'd': '(DOC)', 'h': '(HTM)', 'p': '(PNG)', 'r': '(RTF)', 's': '(WAV)', 'P': '(PDF)', 'X': '(XML)', 'i': '     '}

def gen(R, i, tier):
    pages = []
    n = R.choice([1, 2, 3, 4, 6])
    for k in range(n):
        T = '1' if k == 0 or R.random() < .5 else R.choice('00009gIh7+')
        p = {'type': T, 'port': R.choice([70, 70, 70, 7070, 1]), 'sel': R.choice(['', '/']) if R.random() < .3 else '/' + ''.join(R.choice(SEL) for _ in range(R.choice([1, 8, 20]))),
             'host': netsim.gen_host(R, k) if R.random() < .5 and k else [['4', 'ok']], 'end': R.choice([0] * 12 + [1, 1, 2]) if k else 0, 'nl': R.random() < .8, 'delay': R.choice([0, 1, 50, 5000])}
        if k and R.random() < .4:
            # another page of a server
            p['on'] = R.randrange(k); p['host'] = None
            if 'on' in pages[p['on']]: p['on'] = pages[p['on']]['on']
            p['sel'] = (p['sel'] or '/') + '-' + 'abcdefgh'[k]
        m = R.choice([0, 1, 3, 10, 40]) if k or R.random() < .1 else R.choice([2, 5, 10, 40])
        if T == '1':
            p['lines'] = []
            for _ in range(m):
                if R.random() < .3: p['lines'].append(['i', word(R, R.choice([0, 3, 20, 80])), None])
                elif R.random() < .05: p['lines'].append(['.', '', None])
                else: p['lines'].append([None, word(R, R.choice([0, 3, 20, 80])), R.randrange(n)])
        else: p['lines'] = [word(R, 60) for _ in range(R.choice([136, 137, 300]))] if R.random() < .08 else [word(R, R.choice([0, 0, 5, 30, 100])) for _ in range(m)]
        pages.append(p)
    keys = []
    for _ in range(R.choice([1, 4, 12, 30])):
        x = R.random()
        if x < .3: keys += [R.choice(NEXT)] * R.choice([1, 1, 2, 5, 20])
        elif x < .4: keys += [R.choice(PREV)] * R.choice([1, 1, 2, 5, 20])
        elif x < .66: keys += [R.choice(LINK)] * R.choice([1, 1, 1, 2])
        elif x < .8: keys += [R.choice(BACK)] * R.choice([1, 1, 2])
        elif x < .87: keys += [R.choice(PGDN)] * R.choice([1, 1, 3])
        elif x < .93: keys += [R.choice(PGUP)] * R.choice([1, 1, 3])
        else: keys.append(R.choice(OTHER))
    case = {'size': [R.choice([8, 9, 12, 24, 30]), R.choice([30, 31, 40, 60])], 'pages': pages, 'keys': keys, 'quit': R.choice(['q', 'Q', '\x18\x03']), 'asan': R.random() < .06, 'runs': []}
    if R.random() < .04: case['url'] = R.choice(['http://x/', 'p0.example', '', 'gopher:/p0.example'])
    m = len(data(case))
    for k in range(3):
        r = dict(C10.arrivals(R, m), st=R.choice([0, 0, 3]), f=nj.gen_faults(R, netsim.FAULTS, R.choice([0, 1, 1, 2])) if k else [], seg=[netsim.gen_seg(R) if k else [] for _ in pages])
        if k and R.random() < .7: r['gc'] = gcsched.gen(R, 12)
        if k and R.random() < .3: r['buf'] = R.choice([0, 1, 64, 1000, 5000])
        case['runs'].append(r)
    return case

def byte(k):
    if len(k) == 1 and ord(k) < 128: return k.encode()
    if k in KEYS: return KEYS[k]
    raise Invalid()
def data(case): return b''.join(byte(k) for k in case['keys'])

def site(case, k):
    """The page whose server has page k"""
    j = case['pages'][k].get('on', k)
    if not 0 <= j <= k or 'on' in case['pages'][j] and j != k: raise Invalid()
    return j
def name(case, k): return 'p%d.example' % site(case, k)
def line(case, l):
    if l[2] is None: return l[0] + l[1] + ('' if l[0] == '.' else '\tfake\tnohost\t1')
    p = case['pages'][l[2]]
    return '%s%s\t%s\t%s%s' % (p['type'], l[1], p['sel'], name(case, l[2]), '' if p['port'] == 70 and len(l[1]) % 2 else '\t%d' % p['port'])
def body(case, p):
    L = [line(case, l) for l in p['lines']] if p['type'] == '1' else p['lines']
    return ('\r\n'.join(L) + ('\r\n' if p['nl'] else '')).encode()

class Page:
    def __init__(self, k, type, url): self.k, self.type, self.url, self.scroll, self.data, self.item, self.failed = k, type, url, 0, None, None, False

class Browser:
    """What the keys mean; a page's data is a list of lines, or of [type, text, page] for a menu."""
    def __init__(self, case):
        self.case = case; self.frame = case['size'][0] - 3; self.step = self.frame // 2
        self.cur = Page(None if 'url' in case else 0, '1', case.get('url', 'gopher://' + name(case, 0) + (':%d' % case['pages'][0]['port'] if case['pages'][0]['port'] != 70 else '') + case['pages'][0]['sel']))
        self.hist = []; self.st = ''; self.done = False; self.probes = set(); self.links = 0
    def loaded(self, ok):
        c = self.cur; p = self.case['pages'][c.k] if c.k is not None else None
        c.failed = not ok
        if p is None: c.data = None; return
        if not ok: c.data = [['i', None, None]] if c.type == '1' else [None]; self.probes.add('load-failed'); return
        if c.type == '1':
            c.data = [[self.case['pages'][l[2]]['type'] if l[2] is not None else l[0], l[1], l[2]] for l in p['lines'] if l[0] != '.'] or None
            c.item = next((j for j, l in enumerate(c.data or []) if l[0] != 'i'), None)
            self.probes.add('menu')
            if c.data is None: self.probes.add('empty-page')
            elif c.item is None: self.probes.add('no-links')
        else:
            c.data = body(self.case, p).decode().split('\n'); self.probes.add('text' if c.type == '0' else 'binary')
    def norm(self):
        c = self.cur
        c.scroll = max(0, min(len(c.data or []) - self.frame, c.scroll))
        if c.scroll: self.probes.add('scrolled-menu' if c.type == '1' else 'scrolled-text')
    def page(self, d): self.cur.scroll += d * self.step; self.norm()
    def move(self, d):
        c = self.cur
        if c.type != '1': return self.page(d)
        if c.item is None: return
        L = [j for j, l in enumerate(c.data) if l[0] != 'i' and (j > c.item if d > 0 else j < c.item)]
        if d > 0 and not L: return
        if L: c.item = L[0] if d > 0 else L[-1]
        while c.scroll > c.item: c.scroll -= self.step
        while c.scroll < c.item - self.frame: c.scroll += self.step
        self.norm()
    def follow(self):
        c = self.cur
        if c.item is None: return
        k = c.data[c.item][2]; p = self.case['pages'][k]
        self.hist.append(c)
        self.cur = Page(k, p['type'], 'gopher://' + name(self.case, k) + ('' if p['port'] == 70 else ':%d' % p['port']) + p['sel'])
        self.probes.add('link'); self.links += 1
        if 'on' in p: self.probes.add('same-server')
        if p['port'] != 70: self.probes.add('other-port')
        if len(self.hist) > 4: self.probes.add('deep-history')
    def back(self):
        if self.hist: self.cur = self.hist.pop(); self.probes.add('back')
    def byte(self, b):
        """True when the browser comes round to its page again."""
        c = chr(b); s, self.st = self.st, ''
        if s == 'cx':
            if b == 3: self.done = True; self.probes.add('quit-cx')
        elif s == 'esc':
            if c == '[': self.st = 'br'; return False
        elif s == 'br':
            if c == 'A': self.move(-1)
            elif c == 'B': self.move(1)
            elif c == 'C': self.follow()
            elif c == 'D': self.back()
            elif c in '56': self.st = c; return False
        elif s in ('5', '6'): self.page(-1 if s == '5' else 1)
        elif b == 0x1b: self.st = 'esc'; return False
        elif b == 0x18: self.st = 'cx'; return False
        elif b == 0x10 or c == 'k': self.move(-1)
        elif b == 0x0e or c == 'j': self.move(1)
        elif c == 'h': self.back()
        elif c == 'l': self.follow()
        elif c == 'J': self.page(1)
        elif c == 'K': self.page(-1)
        elif c in 'qQ': self.done = True; self.probes.add('quit-q')
        else: self.probes.add('unbound')
        return True

class Term(C16.Term):
    def feed(self, d):
        while True:
            a, q, d = d.partition(b'\r')
            super().feed(a)
            if not q: return
            self.x = 1

def look(t, b, o):
    h, w = t.h, t.w
    c = b.cur
    if t.bad: return t.bad
    fit = lambda s: s[:w - 1].ljust(w - 1)
    for y in range(1, h - 1):
        r = t.row(y); j = c.scroll + y - 1
        got = ''.join(x[0] for x in r)
        L = c.data or []
        if j >= len(L):
            if got.strip(): return 'row %d shows %r below the end of the page' % (y, got)
            continue
        l = L[j]
        if c.failed:
            if not fit(' ' * (7 if c.type == '1' else 1) + "Couldn't load " + c.url).startswith(got[:12 + (7 if c.type == '1' else 1)]) or not got.strip(): return 'row %d shows %r instead of the failure' % (y, got)
            continue
        if c.type != '1':
            l = l.rstrip('\r')
            if len(l) > w - 2: o.probe('long-line')
            if got != fit(' ' + l): return 'row %d shows %r instead of %r' % (y, got, l)
            continue
        if got != fit(' ' + NAMES.get(l[0], ' (?) ').ljust(6) + l[1]): return 'row %d shows %r instead of %s %r' % (y, got, l[0], l[1])
        if l[1].strip() and l[0] != 'i':
            col = r[7 + len(l[1]) - len(l[1].lstrip())] if 7 + len(l[1]) - len(l[1].lstrip()) < w - 1 else None
            if col and col[1:] != ((33, 44) if j == c.item else (34, 49)) and (j == c.item) != (col[1:] == (33, 44)): return 'row %d, link %d of the page, has colours %s, link %s is selected' % (y, j + 1, col[1:], c.item)
    ml = ''.join(x[0] for x in t.row(h - 1))
    pos = c.item if c.item is not None and c.type == '1' else -1
    want = ' ' + c.url + (' - L%d' % pos if pos > 0 else '')
    if ml != fit(want): return 'the last line is %r instead of %r' % (ml, fit(want))

def scen(case, x):
    h, w = case['size']
    if h < 8 or w < 30 or not case['pages'] or case['pages'][0]['type'] != '1': raise Invalid()
    s = nj.Scenario().args('nujel', '-m', 'app/gopher', Browser(case).cur.url).dir('/sim').add('cwd ' + nj.H('/sim')).add('loglevel 3').add('tty 502 5 bf 8a3b').add('srvagain').add('maxsteps 900000000')
    known, said = set(), set()
    for k, p in enumerate(case['pages']):
        if p['sel'] and (p['sel'][0] != '/' or any(c not in SEL for c in p['sel'])) or p['end'] not in (0, 1, 2) or not 0 < p['port'] < 65536: raise Invalid()
        for l in p['lines']:
            if p['type'] == '1':
                if any(c not in AL for c in l[1]) or (l[2] is None) != (l[0] in ('i', '.')) or l[2] is not None and not 0 <= l[2] < len(case['pages']) or l[0] == '.' and l[1]: raise Invalid()
            elif any(c not in AL for c in l): raise Invalid()
        j = site(case, k); host = case['pages'][j]['host']
        if (j, p['port'], p['sel']) in known: raise Invalid()
        known.add((j, p['port'], p['sel']))
        # what the server says to any other request
        for l in netsim.lines(j, name(case, k), host, p['port'], b'\r\n', b'3There is no such page here\tx\tx\t1\r\n', 0, 0, x['seg'][k] if k < len(x['seg']) else []):
            if l not in said and not (l.startswith('srv ') and ' '.join(l.split(' ')[:3]) in said): s.add(l)
            said.update([l, ' '.join(l.split(' ')[:3])] if l.startswith('srv ') else [l])
        for i, (fam, how) in enumerate(host or []):
            if how == 'ok' and fam != 'x': s.add('srvpage %s %d %s %d %d %s' % (netsim.addr(fam, j, i), p['port'], (p['sel'] + '\r\n').encode().hex(), p['end'], p['delay'], body(case, p).hex() or '-'))
    rep = b'\x1b[%d;%dR' % (h, w)
    d = data(case)
    t, i = x['st'], 0
    if x['st'] == 3:
        for j in range(len(rep)): s.stdin(t, rep[j:j+1]); t += 2
    else: s.stdin(t, rep)
    for dt, m in x['t']:
        t += max(0, dt)
        if d[i:i+m]: s.stdin(t, d[i:i+m])
        i += max(1, m)
    if d[i:]: s.stdin(t + 10, d[i:])
    # two keys that end whatever sequence the keys left open, then quit
    s.stdin(t + 5000, b'~~' + case['quit'].encode())
    if x['c']: s.add('chunk in ' + ' '.join(map(str, x['c'])))
    return s, len(rep), d + b'~~' + case['quit'].encode()

HARD = ('sread', 'swrite', 'fdopen', 'sclose')
def load(b, g, o):
    """Check the events of one request; whether the page must have come (True, False, None: either), or a string."""
    k = b.cur.k; p = b.case['pages'][k]
    if g is None: return 'nothing was requested for %s' % b.cur.url
    j = site(b.case, k)
    if g[0] != name(b.case, k): return 'requested from %s instead of %s' % (g[0], b.cur.url)
    got, bad = netsim.connects(j, name(b.case, k), b.case['pages'][j]['host'], p['port'], g[1])
    if bad: return '%s: %s' % (b.cur.url, bad)
    if sum(1 for l, d in g[1] if l.startswith('connect')) > 1: o.probe('second-address')
    hard = [l for l, d in g[1] if l.startswith('FAULT') and l.split(' ')[1] in HARD]
    rq = netsim.request(g[1])
    if (got and not hard or rq.endswith(b'\r\n')) and rq != (p['sel'] + '\r\n').encode(): return '%s: sent %r' % (b.cur.url, rq)
    if any(l.startswith('FAULT') for l, d in g[1]): o.probe('fault')
    if not got: return False
    if p['end'] == 1: o.probe('reset'); return False
    if hard: return None
    return True

def judge(case, r, keys, skip, o):
    b = Browser(case); T = Term(*case['size'])
    got = used = pos = looked = 0; m = None
    gr, pend, hist = [], [], []       # requests: [page, events, the output after it]
    last = None
    need = True                       # the browser comes round to its page
    def request(end):
        """The page the browser is at is loaded."""
        c = b.cur
        if c.k is None: b.loaded(True); o.probe('bad-url'); return
        g = gr.pop(0) if gr else None
        m = load(b, g, o)
        if isinstance(m, str): return m
        if case['pages'][c.k]['end'] == 2 and m is not False:
            if end == 'blocked:' and not gr: o.probe('stall'); return 'stall'
            if m: return '%s: went on though the server has not finished' % c.url
            m = False
        if m is None:
            # the screen drawn next tells what came of it
            m = b"Couldn't load gopher://" not in g[2].split(b'\x1b[?25h')[0]
            if m: o.probe('despite-fault')
        b.loaded(m)
    for l, d in r.events():
        w = l.split(' ')
        if l.startswith('FAULT gai'): pend.append((l, d))
        elif w[0] == 'getaddrinfo':
            nm = d.decode('latin-1')
            last = [nm, pend + [(l, d)], b'']; pend = []; gr.append(last)
        elif w[0] in ('socket', 'connect', 'fdopen', 'swrite', 'sread', 'close', 'FAULT') and last: last[1].append((l, d))
        elif w[0] == 'stdin': got += int(w[1].split('/')[0])
        elif w[0] == 'out':
            x = r.out[pos:pos + int(w[1])]; pos += int(w[1])
            T.feed(x)
            if last: last[2] += x
        elif w[0] in ('wait', 'exit', 'blocked:') and got >= skip:
            while True:
                if need and b.cur.data is None and not (w[0] == 'exit' and b.done):
                    m = request(w[0])
                    if m == 'stall': break
                    if m: return '%s; after %r' % (m, bytes(hist[-40:]))
                if b.done or used >= got - skip: break
                x = keys[used]; used += 1; hist.append(x)
                need = b.byte(x) and not b.done
            need = False
            if m == 'stall' if w[0] == 'blocked:' else b.done: break
            # a page that turned out empty may be requested again
            while gr and b.cur.data is None and b.cur.k is not None and gr[0][0] == name(case, b.cur.k): gr.pop(0)
            if gr: return 'another request was made of %s, showing %s; after %r' % (gr[0][0], b.cur.url, bytes(hist[-40:]))
            if w[0] == 'wait' and not b.st:
                m = look(T, b, o); looked += 1
                if m: return '%s; after %r' % (m, bytes(hist[-40:]))
    if b.links: o.nontrivial = True
    for p in b.probes: o.probe(p)
    if r.kind == 'blocked': return None if m == 'stall' else 'the browser waits for ever; after %r' % bytes(hist[-40:])
    if r.kind != 'exit' or r.status or not b.done: return 'the browser ended by %s %s%s; after %r' % (r.kind, r.status, (r.out[-200:] + r.err[-200:]), bytes(hist[-40:]))
    e = nj.exitline(r)
    if e.get('socks') != '0' or e.get('open') != '0' or e.get('gai') != '0': return 'at the end %s' % e
    if not r.out.endswith(b'\x1b[?1049l'): return 'the last output is %r' % r.out[-40:]
    tty = [l for l in r.log.split('\n') if l.startswith('tty ')]
    if tty != ['tty i502 o5 cbf l8a3b']: return 'the terminal was left at %s' % tty

def execute(case, env, o):
    W = env.world(case.get('asan', False))
    base, n = None, {}
    for k, x in enumerate(case['runs']):
        s, skip, keys = scen(case, x)
        fl = []
        if base is not None:
            fl = nj.place(x['f'], n)
            for l in fl: s.add(l)
            if 'buf' in x: s.add('bufsize %d' % x['buf'])
            if x.get('gc'):
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        elif x['f'] or x.get('gc'): raise Invalid()
        r = o.see(W.run(s))
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        m = judge(case, r, keys, skip, o)
        if m: o.violation('model', what + m); return
        if base is None: base = r; n = nj.calls(r)
        if any(c == 1 for d, c in x['t']): o.probe('split-arrival')
    o.key = repr((case['pages'], case['keys'], case['size'], [x['t'] for x in case['runs']]))
