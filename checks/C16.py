"""C16: the editor keeps exactly the text the keystrokes describe."""
import nj, gcsched
import C10
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C16'
LEVEL = 'exploration'
RULE = ('case = seeded files, a terminal size and a history of keys (insertions, deletions, kills, yanks, regions, movements, page keys, pastes, unbound keys), arriving in seeded pieces at seeded times, '
        'under collections injected while the editor runs; whenever the editor waits for input the screen, reconstructed from all it has written by a terminal emulator, is compared with a model that holds the text as a list of strings: '
        'every visible line, its number and marked region, the position and the cursor; non-trivial when the text was changed; distinct by files, keys and arrival')
ASSUMPTIONS = ['text of printable ASCII characters', 'terminals of at least 8 lines and 30 columns', 'the size report comes before any key']
NOTE = 'Sampled key histories against a reference model of the text, through a terminal emulator, with sampled collections.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['newline', 'join', 'delete-join', 'region-deleted', 'region-lines', 'yank', 'yank-lines', 'kill', 'scrolled', 'grown-line', 'backspace-at-start', 'delete-at-end', 'empty-file', 'highlight', 'long-line', 'paste', 'split-arrival', 'select-all', 'two-files']

def budget(tier): return 90 if tier == 'quick' else 12000

class Ed:
    """What the keys mean."""
    def __init__(self, text, name, height):
        self.L = text.split('\n') if text is not None else ['']
        self.x = self.y = 0
        self.mark = None; self.clip = ''; self.cx = False; self.quit = False; self.name = name
        self.step = max(4, height // 3); self.edits = 0; self.probes = set()
    def region(self):
        a, b = sorted([(self.y, self.x), (self.mark[1], self.mark[0])])
        return a, b
    def cut(self):
        """Delete the region, if a mark is set"""
        if self.mark is None: return False
        (ay, ax), (by, bx) = self.region()
        self.mark = None
        self.L[ay:by + 1] = [self.L[ay][:ax] + self.L[by][bx:]]
        self.x, self.y = ax, ay
        self.edits += 1; self.probes.add('region-deleted')
        if by > ay + 1: self.probes.add('region-lines')
        return True
    def text(self):
        if self.mark is None: return ''
        (ay, ax), (by, bx) = self.region()
        if ay == by: return self.L[ay][ax:bx]
        return '\n'.join([self.L[ay][ax:]] + self.L[ay + 1:by] + [self.L[by][:bx]])
    def insert(self, c):
        self.cut()
        self.edits += 1
        l = self.L[self.y]
        if c == '\n':
            self.L[self.y:self.y + 1] = [l[:self.x], l[self.x:]]
            self.y += 1; self.x = 0; self.probes.add('newline')
        else:
            self.L[self.y] = l[:self.x] + c + l[self.x:]
            self.x += 1
            if len(l) % 16 == 0 and l: self.probes.add('grown-line')
    def goto(self, y):
        self.y = max(0, min(len(self.L) - 1, y))
        self.x = max(0, min(len(self.L[self.y]) - 1, self.x))
    def key(self, k):
        L, l = self.L, self.L[self.y]
        if self.cx:
            self.cx = False
            if k == 'C-c': self.quit = True
            elif k == 'h':
                self.y = len(L) - 1; self.x = len(L[-1]); self.mark = (self.x, self.y); self.x = self.y = 0; self.probes.add('select-all')
            return
        if len(k) == 1: self.insert(k); return
        if k == 'C-x': self.cx = True
        elif k == 'C-spc': self.mark = (self.x, self.y)
        elif k in ('C-a', 'home'):
            d = len(l) - len(l.lstrip(' '))
            self.x = d if self.x > d else 0
        elif k in ('C-e', 'end'): self.x = len(l)
        elif k in ('C-b', 'left'):
            if self.x: self.x -= 1
            elif self.y: self.y -= 1; self.x = len(L[self.y])
        elif k in ('C-f', 'right'):
            if self.x < len(l): self.x += 1
            elif self.y + 1 < len(L): self.y += 1; self.x = 0
        elif k in ('C-p', 'up'):
            if self.y: self.y -= 1; self.x = min(self.x, len(L[self.y]))
        elif k in ('C-n', 'down'):
            if self.y + 1 < len(L): self.y += 1; self.x = min(self.x, len(L[self.y]))
        elif k == 'C-g': self.mark = None
        elif k == 'C-k':
            self.mark = None; self.clip = l[self.x:]; L[self.y] = l[:self.x]; self.edits += 1; self.probes.add('kill')
        elif k in ('C-y', 'insert'):
            for c in self.clip: self.insert(c)
            if self.clip: self.probes.add('yank')
            if '\n' in self.clip: self.probes.add('yank-lines')
        elif k == 'C-w': self.clip = self.text(); self.cut()
        elif k == 'M-w': self.clip = self.text(); self.mark = None
        elif k == 'M-<': self.x = self.y = 0
        elif k == 'M->': self.y = len(L) - 1; self.x = len(L[-1])
        elif k == 'page-down': self.goto(self.y + self.step)
        elif k == 'page-up': self.goto(self.y - self.step)
        elif k == 'ret': self.insert('\n')
        elif k == 'backspace':
            if self.cut(): return
            if self.x: L[self.y] = l[:self.x - 1] + l[self.x:]; self.x -= 1; self.edits += 1
            elif self.y:
                self.y -= 1; self.x = len(L[self.y]); L[self.y:self.y + 2] = [L[self.y] + l]; self.edits += 1; self.probes.add('join')
            else: self.probes.add('backspace-at-start')
        elif k == 'delete':
            if self.cut(): return
            if self.x < len(l): L[self.y] = l[:self.x] + l[self.x + 1:]; self.edits += 1
            elif self.y + 1 < len(L): L[self.y:self.y + 2] = [l + L[self.y + 1]]; self.edits += 1; self.probes.add('delete-join')
            else: self.probes.add('delete-at-end')
    def marked(self, y, n):
        """The columns of line y that the region covers"""
        if self.mark is None: return 0, 0
        (ay, ax), (by, bx) = self.region()
        if not ay <= y <= by: return 0, 0
        return ax if y == ay else 0, bx if y == by else n

KEYS = {'C-spc': b'\0', 'tab': b'\t', 'ret': b'\r', 'backspace': b'\x7f', 'up': b'\x1b[A', 'down': b'\x1b[B', 'right': b'\x1b[C', 'left': b'\x1b[D', 'end': b'\x1b[F', 'home': b'\x1b[H',
        'insert': b'\x1b[2~', 'delete': b'\x1b[3~', 'page-up': b'\x1b[5~', 'page-down': b'\x1b[6~', 'M-w': b'\x1bw', 'M-<': b'\x1b<', 'M->': b'\x1b>', 'M-x': b'\x1bx', 'F5': b'\x1bOT', 'escape': b'\x1b\x1b'}
def byte(k):
    if len(k) == 1: return k.encode()
    if k in KEYS: return KEYS[k]
    if k[:2] == 'C-': return bytes([ord(k[2]) - 96])
    raise Invalid()

MOVE = ['left', 'right', 'up', 'down', 'home', 'end', 'C-a', 'C-e', 'C-b', 'C-f', 'C-p', 'C-n', 'M-<', 'M->', 'page-up', 'page-down']
EDIT = ['backspace', 'backspace', 'delete', 'delete', 'ret', 'ret', 'C-k', 'C-y', 'C-w', 'insert']
OTHER = ['C-g', 'C-spc', 'C-spc', 'M-w', 'tab', 'C-j', 'C-t', 'M-x', 'F5', 'escape']

def line(R):
    n = R.choice([0, 0, 1, 3, 8, 15, 16, 17, 31, 32, 33, R.randrange(60)])
    s = ''.join(R.choice('abcdefgh ()XYZ.019') for _ in range(n))
    return (' ' * R.randrange(5) + s)[:max(n, 0)] if R.random() < .3 else s

def gen(R, i, tier):
    size = [R.choice([8, 9, 12, 24, 30]), R.choice([30, 31, 40, 60])]
    n = R.choice([0, 1, 2, 3, 10, 40] + ([130, 300] if R.random() < .15 else []))
    text = '\n'.join(line(R) for _ in range(n)) + R.choice(['', '\n'])
    keys = []
    for _ in range(R.choice([2, 10, 30, 60])):
        k = R.randrange(20)
        if k < 6: keys.append(R.choice('abcxyz019 (h~'))
        elif k < 11: keys += [R.choice(MOVE)] * R.choice([1, 1, 1, 2, 5])
        elif k < 15: keys += [R.choice(EDIT)] * R.choice([1, 1, 1, 2, 20])
        elif k < 16: keys.append(R.choice(OTHER))
        elif k < 18: keys += ['C-spc'] + [R.choice(MOVE) for _ in range(R.choice([0, 1, 2, 4]))] + [R.choice(['C-w', 'M-w', 'backspace', 'delete', 'z', 'ret', 'C-y', 'C-k', 'C-g', 'C-spc'])]
        elif k < 19: keys += ['C-x', R.choice(['h', 'h', 'C-x', 'q', 'left', 'C-g'])]
        else: keys += list(line(R) * R.choice([1, 1, 3]))
    paste = R.random() < .06
    if paste: keys += [R.choice('abcdefgh  ') if R.random() < .96 else 'ret' for _ in range(R.choice([300, 1500]))]
    case = {'size': size, 'text': text, 'keys': keys, 'files': R.choice([0, 1, 1, 1, 2]), 'asan': R.random() < .05, 'runs': []}
    m = len(b''.join(byte(x) for x in keys))
    for k in range(2):
        r = dict(C10.arrivals(R, m), st=R.choice([0, 0, 3]))
        if paste: r['t'] = [[10, m]]
        if k: r['gc'] = gcsched.gen(R, 12)
        case['runs'].append(r)
    return case

class Term:
    """A terminal: characters, colours, cursor."""
    def __init__(self, h, w):
        self.h, self.w = h, w
        self.cell = {}
        self.y = self.x = 1; self.fg, self.bg = 0, 49; self.cur = True; self.buf = b''; self.bad = None
    def feed(self, data):
        data = self.buf + data; i = 0; self.buf = b''
        while i < len(data):
            b = data[i]
            if b == 27:
                if data[i:i+2] != b'\x1b[':
                    if data[i+1:i+3] in (b' 7', b' 8'): i += 3; continue    # (meant to save and restore the cursor)
                    if data[i+1:i+2] in (b'7', b'8'): i += 2; continue
                    self.bad = 'unknown sequence %r' % data[i:i+6]; return
                j = i + 2
                while j < len(data) and not 0x40 <= data[j] < 0x7f: j += 1
                if j == len(data): self.buf = data[i:]; return
                a, f = data[i+2:j].decode('latin-1'), chr(data[j]); i = j + 1
                try:
                    if a[:1] == '?':
                        if a == '?25': self.cur = f == 'h'
                        elif a == '?1049': self.cell = {} if f == 'h' else self.cell
                        else: self.bad = 'unknown mode %s' % a; return
                    elif f == 'H':
                        p = [int(q or 1) for q in a.split(';')] if a else [1, 1]
                        # a row or column of 0 counts as 1
                        self.y, self.x = max(1, min(p[0], self.h)), max(1, min(p[1], self.w))
                    elif f == 'J': self.cell = {}
                    elif f == 'm':
                        for q in (int(q or 0) for q in a.split(';')):
                            if q == 0: self.fg, self.bg = 0, 49
                            elif 30 <= q < 40: self.fg = q
                            elif 40 <= q < 50: self.bg = q
                    elif f == 'n': pass
                    else: self.bad = 'unknown sequence %r' % data[i-8:i]; return
                except ValueError: self.bad = 'malformed sequence %r %r' % (a, f); return
                continue
            if b < 32 or b > 126: self.bad = 'byte %d on the screen' % b; return
            self.cell[self.y, self.x] = (chr(b), self.fg, self.bg)
            self.x = min(self.x + 1, self.w)
            i += 1
    def row(self, y): return [self.cell.get((y, x), (' ', 0, 49)) for x in range(1, self.w)]

PLAIN, MARK = (0, 49), (33, 44)

def look(t, ed, o):
    """Does the terminal show the editor's text? An explanation, if not."""
    h, w = t.h, t.w
    if t.bad: return t.bad
    rows = []
    for y in range(1, h - 1): rows.append(t.row(y))
    text = lambda r: ''.join(c[0] for c in r)
    first = text(rows[0])[:6]
    if not first.strip().isdigit(): return 'the first line on the screen is %r' % text(rows[0])
    top = int(first) - 1
    if top: o.probe('scrolled')
    if not top <= ed.y < top + h - 2: return 'line %d is shown first, the cursor is in line %d of %d rows' % (top + 1, ed.y + 1, h - 2)
    for k, r in enumerate(rows):
        n = top + k
        if n >= len(ed.L):
            if text(r).strip(): return 'below the text the screen shows %r' % text(r)
            continue
        l = ed.L[n]
        num = text(r)[:6]
        if num.strip() != str(n + 1): return 'line %d is numbered %r' % (n + 1, num)
        want = l[:w - 7].ljust(w - 7)
        if len(l) > w - 7: o.probe('long-line')
        got = text(r)[6:]
        if got != want: return 'line %d is shown as %r instead of %r' % (n + 1, got, want)
        a, b = ed.marked(n, len(l))
        for x in range(w - 7):
            c = r[6 + x][1:]
            if x < len(l) and c != (MARK if a <= x < b else PLAIN) or x >= len(l) and c != PLAIN: return 'in line %d, column %d, the colours are %s (region %d to %d)' % (n + 1, x, c, a, b)
        if b > a: o.probe('highlight')
        if (r[0][1:] == MARK) != (n == ed.y): return 'the cursor is in line %d, the number of line %d is in %s' % (ed.y + 1, n + 1, r[0][1:])
    ml = text(t.row(h - 1))
    l = ed.L[ed.y]
    info = ' L%d:%d - %d:%d - %s' % (ed.y + 1, ed.x, len(l), len(l) - len(l.lstrip(' ')), ed.name)
    if ml.strip() != info.strip()[:w - 3].strip() and ml != (' ' + info)[:w - 1].ljust(w - 1): return 'the line about the buffer says %r instead of %r' % (ml, info)
    if 7 + ed.x < w:
        if not t.cur: return 'the cursor is hidden'
        if (t.y, t.x) != (ed.y - top + 1, ed.x + 7): return 'the cursor is at row %d, column %d instead of %d, %d' % (t.y, t.x, ed.y - top + 1, ed.x + 7)
    elif t.cur: return 'the cursor is shown at row %d, column %d, its place is outside the screen' % (t.y, t.x)

def execute(case, env, o):
    h, w = case['size']
    if h < 8 or w < 30 or any(not 32 <= ord(c) < 127 and c != '\n' for c in case['text']): raise Invalid()
    data = b''.join(byte(x) for x in case['keys'])
    W = env.world(case.get('asan', False))
    base = None
    for k, x in enumerate(case['runs']):
        s = nj.Scenario().args('nujel', '-m', 'app/termed').dir('/sim').add('cwd ' + nj.H('/sim')).add('loglevel 3').add('tty 502 5 bf 8a3b').add('maxsteps 900000000')
        name = '*scratch*'
        if case['files'] == 2: s.args('other').file('/sim/other', b'nothing\nof interest\n'); o.probe('two-files')
        if case['files']:
            name = 'a.txt'; s.args(name).file('/sim/a.txt', case['text'].encode())
        rep = b'\x1b[%d;%dR' % (h, w)
        t, i = x['st'], 0
        if x['st'] == 3:
            for j in range(len(rep)): s.stdin(t, rep[j:j+1]); t += 2
        else: s.stdin(t, rep)
        for dt, m in x['t']:
            t += max(0, dt)
            if data[i:i+m]: s.stdin(t, data[i:i+m])
            i += max(1, m)
        t += 5000
        s.stdin(t, data[i:] + b'\x07')
        s.stdin(t + 5000, b'\x07\x18\x03')
        if x['c']: s.add('chunk in ' + ' '.join(map(str, x['c'])))
        if base is None:
            if x.get('gc'): raise Invalid()
        elif x.get('gc'):
            for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(W.run(s))
        what = 'run %d %s: ' % (k, {y: x[y] for y in x if y != 't'})
        if always_bad(r, o, what): return
        m = judge(case, r, data + b'\x07\x07\x18\x03', len(rep), name, o)
        if m: o.violation('model', what + m); return
        if base is None: base = r
        if C10.split_seq({'data': data.hex()}, x): o.probe('split-arrival')
    o.key = repr((case['text'], case['keys'], case['size'], [x['t'] for x in case['runs']]))

def judge(case, r, data, skip, name, o):
    ed = Ed(case['text'] if case['files'] else '', name, case['size'][0])
    if case['files'] and not case['text']: o.probe('empty-file')
    T = Term(*case['size'])
    got = used = pos = 0          # bytes read, bytes decoded, bytes written
    done = looked = 0
    hist = []
    for l in r.log.split('\n'):
        q = l.split(' ')
        if q[0] == 'stdin': got += int(q[1].split('/')[0])
        elif q[0] == 'out': T.feed(r.out[pos:pos + int(q[1])]); pos += int(q[1])
        elif q[0] in ('wait', 'exit') and got >= skip:
            ev, left = C10.decode(data[:got - skip])
            for e in ev[done:]:
                if ed.quit: break
                k = e.split(' ')[2] if e[0] == 'i' else e[3:]
                if e[0] == 'i' and k == '': k = ' '
                ed.key(k); hist.append(k)
            done = len(ev)
            if q[0] == 'exit': break
            m = look(T, ed, o)
            looked += 1
            if m: return '%s; after the keys %s' % (m, ' '.join(hist[-40:]).replace('  ', ' spc '))
    if r.kind != 'exit' or r.status or not ed.quit: return 'the editor ended by %s %s%s; after the keys %s' % (r.kind, r.status, (r.out[-200:] + r.err[-200:]), ' '.join(hist[-40:]))
    if not looked: return 'the editor never waited for input'
    if ed.edits: o.nontrivial = True
    if len(case['keys']) > 299: o.probe('paste')
    for p in ed.probes: o.probe(p)

def shrink(case):
    for k in range(1, len(case['runs'])): yield dict(case, runs=case['runs'][:k] + case['runs'][k+1:])
    n = len(case['keys'])
    def cutk(a, b): return dict(case, keys=case['keys'][:a] + case['keys'][b:], runs=[dict(x, t=[[10, 1]] * 12 if len(x['t']) > 30 else x['t']) for x in case['runs']])
    for a in (n // 2, n // 4, n // 8, 2, 1):
        if a:
            for j in range(0, n, a): yield cutk(j, j + a)
    L = case['text'].split('\n')
    for a in (len(L) // 2, 1):
        if a and len(L) > 1:
            for j in range(0, len(L), a): yield dict(case, text='\n'.join(L[:j] + L[j+a:]))
    m = len(b''.join(byte(x) for x in case['keys']))
    for k, x in enumerate(case['runs']):
        if x['t'] != [[10, m]]: yield dict(case, runs=case['runs'][:k] + [dict(x, t=[[10, m]], c=None, st=0)] + case['runs'][k+1:])
        if x.get('gc'): yield dict(case, runs=case['runs'][:k] + [{a: x[a] for a in x if a != 'gc'}] + case['runs'][k+1:])
    if case.get('asan'): yield dict(case, asan=False)
    if case['files'] == 2: yield dict(case, files=1)
    if case['text'] and len(case['text']) < 40: yield dict(case, text='')
