"""C19: ports behave like the byte stream they stand for."""
import nj, gcsched
from nj import E, CRASH
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C19'
LEVEL = 'exploration'
RULE = ('case = an interleaved sequence of reads, writes, seeks, position and end-of-file queries, flushes, closes and misuses on 1-4 open files and string ports, with a seeded portioning of '
        'transfers and buffer sizes, run without faults against a byte-array-with-position model step by step, then with failing and short calls, full disks, deaths and collections; '
        'non-trivial when at least 8 port operations ran and a fault fired; distinct by operations and faults')
ASSUMPTIONS = ['after a transfer on a handle failed nothing is claimed about later operations on that handle', 'what write(2) accepted is on disk when the process dies']
NOTE = ('Sampled operation sequences, each step compared with a model of a byte stream with position; faults must show up as errors in the very step they happen in. '
        'Trusts the in-memory file system and glibc stdio.')
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['available', 'reported-failure', 'crash', 'flushed-survived', 'misuse-refused', 'eof', 'overwrite', 'appended-behind']

FAULTS = {'read': [E['EIO'], E['ESTALE']], 'write': [E['ENOSPC'], E['EIO'], E['EDQUOT'], CRASH, CRASH], 'close': [E['EIO'], E['ENOSPC'], CRASH], 'seek': [E['EIO'], E['EINVAL'], CRASH]}

def budget(tier): return 900 if tier == 'quick' else 40000

def gen(R, i, tier):
    hs = []
    for k in range(R.randrange(1, 5)):
        kind = R.choice(['in', 'in', 'out', 'out', 'app', 'str', 'inp', 'outp'])
        h = {'k': kind}
        if kind != 'str': h['init'] = nj.content(R, R.random() < .3).hex() if kind[:2] in ('in', 'ap') or R.random() < .5 else None
        hs.append(h)
    ops = []
    for _ in range(R.randrange(4, 40)):
        n = R.randrange(len(hs))
        k = hs[n]['k']
        if k in ('in', 'inp'):
            if R.random() < .2 and all(q[0] != n for q in ops): ops.append([n, 'avail'])
            x = R.randrange(20)
            sz = R.choice([0, 1, 2, 5, 16, 100, 127, 128, 600, 4096, 9000] + ([65536, 70001, 200000] if R.random() < .1 else []))
            if x < 9:
                bl = sz + R.choice([0, 0, 1, 10]); off = R.choice([0, 0, 0, R.randrange(bl - sz + 1)])
                ops.append([n, 'read', sz, off if k == 'in' else 0, bl, R.choice(['buf', 'buf', 'view'])])
            elif x < 11: ops.append([n, 'tell'])
            elif x < 14: ops.append([n, 'seek', R.choice([0, 1, -1, 10, -10, 511, 512, R.randrange(9000), -R.randrange(600)]), R.choice([0, 0, 1, 2])])
            elif x < 15: ops.append([n, R.choice(['eof', 'eof', 'avail'])])
            elif x < 16: ops.append([n, 'far', R.choice(FAR), R.randrange(600)])
            elif x < 18 and k == 'inp': ops.append([n, 'getc'])
            else: ops.append([n, 'bad', R.randrange(len(BADOPS))])
        elif k in ('out', 'outp', 'app'):
            x = R.randrange(20)
            if x < 10:
                d = nj.content(R); off = R.choice([0, 0, R.randrange(len(d) + 1)]) if k != 'outp' else 0
                ops.append([n, 'write', d.hex(), R.choice([None, len(d) - off, R.randrange(len(d) - off + 1)]), off, R.choice(['str', 'buf', 'view'])])
            elif x < 12: ops.append([n, 'flush'])
            elif x < 15 and k == 'app': ops.append([n, 'ext', nj.data(R, R.choice([1, 3, 40, 700])).hex()])
            elif x < 13 and k == 'outp': ops.append([n, 'putc', R.randrange(256)])
            elif x < 14 and k == 'outp': ops.append([n, 'writes', [nj.data(R, R.randrange(20)).hex() for _ in range(R.randrange(1, 4))]])
            elif x < 15 and k != 'app': ops.append([n, 'tell'])
            elif x < 16 and k != 'app': ops.append([n, 'far', R.choice(FAR), R.randrange(600)])
            elif x < 18 and k != 'app': ops.append([n, 'seek', R.choice([0, 1, -1, 10, -10, 100, R.randrange(900), -R.randrange(600)]), R.choice([0, 0, 1, 2])])
            else: ops.append([n, 'bad', R.randrange(len(BADOPS))])
        else:
            x = R.randrange(10)
            if x < 5:
                d = nj.content(R)
                ops.append([n, 'write', d.hex(), R.choice([None, None, R.randrange(len(d) + 1)]), 0, R.choice(['str', 'buf'])])
            elif x < 6: ops.append([n, 'putc', R.randrange(256)])
            elif x < 7: ops.append([n, 'tell'])
            elif x < 8: ops.append([n, 'rewind', R.randrange(1000001)])
            elif x < 9: ops.append([n, 'writes', [nj.data(R, R.randrange(20)).hex() for _ in range(R.randrange(1, 4))]])
            else: ops.append([n, 'string'])
    runs = []
    for _ in range(3):
        r = {'f': nj.gen_faults(R, FAULTS)}
        if R.random() < .15: r['cap'] = R.randrange(20000); r['f'] = r['f'][:R.randrange(2)]
        if R.random() < .5: r['gc'] = gcsched.gen(R, 14)
        runs.append(r)
    return {'hs': hs, 'ops': ops, 'env': nj.io_env(R), 'runs': runs, 'asan': R.random() < .12}

BADOPS = ['(file/tell* #nil)', '(file/close* 42)', '(file/flush* "a")', '(file/eof*? :x)',
          '(file/read* %s (buffer/allocate 4) 5)', '(file/read* %s (buffer/allocate 4) 2 3)', '(file/write* %s "abcd" 3 2)', '(file/seek* %s 0 3)', '(file/read* %s "literal" 3)',
          '(file/read* %s #m61626364 3)', '(file/read* %s (:s8 #m61626364) 3)',
          '(file/read* %s (buffer/allocate 4) -1)', '(file/read* %s (buffer/allocate 4) 2 4294967296)', '(file/read* %s (buffer/allocate 4) 2 -1)', '(file/write* %s "abcd" 2 4294967297)', '(file/write* %s "abcd" 4294967298)',
          '(file/read* %s (buffer/allocate 4) 4294967297)', '(file/read* %s (buffer/allocate 4) #nil)', '(file/read* %s (buffer/allocate 4) 1.0)', '(file/write* %s "abcd" 1 -1)', "(file/write* %s 'x)", '(file/read* %s #nil 1)', '(file/seek* %s :a 0)', '(file/seek* %s 0 -1)']

FAR = [2**31 - 1, 2**31, 2**32, 2**32 + 7, 5000000000, 2**40 + 3]     # positions a file handle may take although there is nothing
ALLOWED = {'in': ['read', 'tell', 'seek', 'eof', 'bad', 'far', 'avail'], 'inp': ['read', 'tell', 'seek', 'eof', 'bad', 'getc', 'far', 'avail'],
           'out': ['write', 'flush', 'tell', 'seek', 'bad', 'far'], 'app': ['write', 'flush', 'bad', 'ext'], 'outp': ['write', 'flush', 'tell', 'seek', 'far', 'bad', 'putc', 'writes'],
           'str': ['write', 'putc', 'tell', 'rewind', 'writes', 'string']}
TRY = ':type-error'

class M:
    """The model of one port."""
    def __init__(self, n, h):
        self.n, self.k = n, h['k']
        self.path = '/sim/f%d' % n
        self.data = bytearray(bytes.fromhex(h.get('init') or '')) if self.k[:2] != 'ou' else bytearray()
        self.pos = len(self.data) if self.k == 'app' else 0
        self.eof = False; self.used = False
        self.dirty = False
        self.flushed = bytes(self.data); self.later = {}
        self.exists = h.get('init') is not None
    def put(self, b):
        if self.k == 'app': self.pos = len(self.data)
        if b:
            if len(self.data) < self.pos: self.data += bytes(self.pos - len(self.data))
            self.data[self.pos:self.pos + len(b)] = b
            for i, c in enumerate(b): self.later.setdefault(self.pos + i, set()).add(c)
            self.pos += len(b)
    def sync(self): self.flushed = bytes(self.data); self.later = {}
    def mixok(self, have):
        if have is None or len(have) < len(self.flushed) or len(have) > len(self.data): return False
        for i, c in enumerate(have):
            if i < len(self.flushed) and self.flushed[i] == c: continue
            if c in self.later.get(i, ()): continue
            if i >= len(self.flushed) and c == 0: continue
            return False
        return True

def plan(case):
    """[(port or None, expression, kind, expected printed value or None, model action)]"""
    hs = case['hs']
    P = []
    for n, h in enumerate(hs):
        k = h['k']
        raw = '(file/open-%s* "f%d"%s)' % ('input' if k[:2] == 'in' else 'output', n, {'a': ' :append', 'o': ' :replace'}.get(k[0], ''))
        if k == 'str': e = '(do (def! p%d (:new StringOutputPort)) :ok)'
        elif k in ('inp', 'outp'): e = '(do (def! h%%d %s) (def! p%%d (:new %s h%%d)) :ok)' % (raw, 'InputPort' if k == 'inp' else 'OutputPort'); e = e % (n, n, n)
        else: e = '(do (def! h%%d %s) :ok)' % raw; e = e % n
        if k == 'str': e = e % n
        P.append((n, e, 'open', None))
    for op in case['ops']:
        n, what = op[0], op[1]
        if not 0 <= n < len(hs): raise Invalid()
        k = hs[n]['k']
        h, p = 'h%d' % n, 'p%d' % n
        port = k in ('inp', 'outp', 'str')
        if what not in ALLOWED[k]: raise Invalid()
        if what == 'read':
            sz, off, bl, kind = op[2:]
            if sz + off > bl or min(sz, off, bl) < 0: raise Invalid()
            b = '(:u8 rb)' if kind == 'view' else 'rb'
            if k == 'inp': P.append((n, '(do (def! rb (buffer/allocate %d)) (:block-read %s %s %d))' % (bl, p, b, sz), 'read', op))
            else: P.append((n, '(do (def! rb (buffer/allocate %d)) (file/read* %s %s %d%s))' % (bl, h, b, sz, ' %d' % off if off else ''), 'read', op))
            P.append((n, 'rb', 'readbuf', op))
        elif what == 'getc': P.append((n, '(:char-read %s)' % p, 'getc', op))
        elif what == 'tell': P.append((n, '(:position %s)' % p if port else '(file/tell* %s)' % h, 'tell', op))
        elif what == 'far':
            if op[2] not in FAR or op[3] < 0: raise Invalid()
            for off in (op[2], None, op[3]):
                if off is None: P.append((n, '(:position %s)' % p if port else '(file/tell* %s)' % h, 'tell', op)); continue
                e = '(do (file/seek* %s %d 0) :ok)' % (h, off)
                if port: e = '(do (:position! %s %d) :ok)' % (p, off)
                P.append((n, e, 'seek', [n, 'seek', off, 0]))
        elif what == 'seek':
            e = '(do (file/seek* %s %d %d) :ok)' % (h, op[2], op[3])
            if port and op[3] == 0: e = '(do (:position! %s %d) :ok)' % (p, op[2])
            P.append((n, e, 'seek', op))
        elif what == 'avail': P.append((n, '(:length %s)' % p if port else '(file/bytes-available* %s)' % h, 'avail', op))
        elif what == 'eof': P.append((n, '(file/eof*? %s)' % h, 'eof', op))
        elif what == 'write':
            d = bytes.fromhex(op[2])
            sz, off, kind = op[3:6]
            if sz is not None and (sz < 0 or off < 0 or sz + off > len(d)): raise Invalid()
            if off > len(d): raise Invalid()
            v = {'str': nj.bstr, 'buf': nj.buf, 'view': lambda d: '(:s8 %s)' % nj.buf(d)}[kind](d)
            a = '' if sz is None and not off else ' %s' % ('#nil' if sz is None else sz)
            if off: a += ' %d' % off
            e = '(do (:block-write %s %s%s) :ok)' % (p, v, a) if port else '(do (file/write* %s %s%s) :ok)' % (h, v, a)
            P.append((n, e, 'write', d[off:] if sz is None else d[off:off+sz]))
        elif what == 'putc': P.append((n, '(do (:char-write %s %d) :ok)' % (p, op[2]), 'write', bytes([op[2]])))
        elif what == 'writes':
            P.append((n, '(do (:write %s %s) :ok)' % (p, ' '.join(nj.bstr(bytes.fromhex(x)) for x in op[2])), 'write', b''.join(bytes.fromhex(x) for x in op[2])))
        elif what == 'flush': P.append((n, '(do (:flush-output %s) :ok)' % p if port else '(do (file/flush* %s) :ok)' % h, 'flush', op))
        elif what == 'ext':
            # somebody else appends to the same file
            d = bytes.fromhex(op[2])
            P.append((n, '(do (file/flush* %s) (let ((x (file/open-output* "f%d" :append))) (try (fn (e) (file/close* x) (throw e)) (file/write* x %s)) (file/close* x)) :ok)' % (h, n, nj.bstr(d)), 'ext', d))
        elif what == 'rewind': P.append((n, None, 'rewind', op))
        elif what == 'string': P.append((n, '(:return-string %s)' % p, 'string', op))
        elif what == 'bad':
            e = BADOPS[op[2]]
            P.append((n, e % h if '%s' in e else e, 'bad', op))
        else: raise Invalid()
    for n, h in enumerate(hs):
        k = h['k']
        if k == 'str': P.append((n, '(:return-string p%d)' % n, 'string', None))
        else: P.append((n, '(do (:close! p%d) :ok)' % n if k in ('inp', 'outp') else '(do (file/close* h%d) :ok)' % n, 'close', None))
    return P

def rewinds(case, P):
    """The positions of string ports are model state: fill in where to rewind to."""
    ms = {}
    Q = []
    for n, e, kind, x in P:
        if case['hs'][n]['k'] == 'str':
            m = ms.setdefault(n, M(n, case['hs'][n]))
            if kind == 'write': m.put(x)
            if kind == 'rewind':
                to = x[2] * m.pos // 1000000
                m.pos = to
                e, x = '(do (:position! p%d %d) :ok)' % (n, to), to
        Q.append((n, e, kind, x))
    return Q

def judge(case, P, r, o, what):
    ms = [M(n, h) for n, h in enumerate(case['hs'])]
    res = nj.results(r)
    ev = {}
    for s, l, d in nj.timeline(r):
        if l.startswith('FAULT') or (l.startswith('open ') and not l.endswith(' 0')): ev.setdefault(s, []).append(l)
    crashed = r.kind == 'crash'
    for i, (n, e, kind, x) in enumerate(P):
        m = ms[n]
        v = res.get(i)
        bad = [l for l in ev.get(i, []) if not (m.k[:2] == 'in' and kind == 'close' and l.startswith('FAULT seek'))]
        w = '%sstep %d %s on a %s port at %d: ' % (what, i, e[:160], m.k, m.pos)
        if v is None:
            if not crashed: return w + 'gave no result'
            if kind in ('write', 'ext') and not m.dirty: m.put(x)
            o.probe('crash')
            break
        if kind == 'bad':
            if v != '(:exc %s)' % TRY and not m.dirty: return w + 'was not refused: %s' % (v,)
            o.probe('misuse-refused')
            continue
        if m.dirty:
            if kind == 'readbuf' and not isinstance(v, tuple): return w + 'gave %s' % (v,)
            continue
        exp = None
        if kind in ('read', 'getc', 'seek', 'bad'): m.used = True
        if kind == 'open': exp = ':ok'
        elif kind == 'read':
            sz = x[2]
            got = bytes(m.data[m.pos:m.pos + sz])
            if m.k == 'inp' and m.eof: exp = ':end-of-file'; got = b''
            else:
                if m.eof: got = b''
                exp = str(len(got))
                if len(got) < sz and sz: m.eof = True
            m.last = bytes(x[3]) + got + bytes(x[4] - x[3] - len(got))
            m.pos += len(got)
        elif kind == 'readbuf': exp = ('buffer', m.last)
        elif kind == 'getc':
            if not m.eof and m.pos < len(m.data): exp = str(m.data[m.pos]); m.pos += 1
            else: exp = ':end-of-file'; m.eof = True; o.probe('eof')
        elif kind == 'tell': exp = str(m.pos)
        elif kind == 'seek':
            to = x[2] + (0 if x[3] == 0 else m.pos if x[3] == 1 else len(m.data))
            if to < 0:
                exp = '(:exc :io-error)'
                if bad: m.dirty = True; bad = []
            else:
                exp = ':ok'
                if v == ':ok': m.pos = to; m.eof = False
                if to < len(m.data): o.probe('overwrite')
        elif kind == 'avail':
            # what the stream has read ahead does not count
            left = max(0, len(m.data) - m.pos)
            exp = str(left)
            if m.used and v.isdigit() and int(v) <= left: exp = v
            if left > 255: o.probe('available')
        elif kind == 'eof': exp = '#t' if m.eof else '#f'
        elif kind == 'write':
            m.put(x); exp = ':ok'
        elif kind == 'ext':
            exp = ':ok'; o.probe('appended-behind')
            if not bad: m.sync()
            m.put(x)
            if not bad: m.sync()
        elif kind == 'rewind': m.pos = x; exp = ':ok'
        elif kind == 'string': exp = ('string', bytes(m.data[:m.pos]))
        elif kind in ('flush', 'close'):
            exp = ':ok'
            if not bad and m.k[:2] in ('ou', 'ap'): m.sync()
        if bad and kind in ('read', 'getc', 'seek', 'tell', 'write', 'flush', 'close', 'open', 'ext'):
            if kind == 'seek' and m.k[:2] == 'in' and v == ':ok':
                m.dirty = True; continue      # the C library read ahead while seeking; the error shows at the next read, if at all
            torn = all(l.startswith('FAULT write') and int(l.split(' ')[4]) > 0 for l in bad)
            if kind == 'open': m.dirty = True; continue
            if isinstance(v, str) and v.startswith('(:exc'):
                if v != '(:exc :io-error)': return w + 'failed with %s' % v
                o.probe('reported-failure'); m.dirty = True; continue
            if torn and v == exp:     # everything was accepted before the error
                if kind in ('flush', 'close', 'ext'): m.sync()
                continue
            return w + 'gave %s though %s' % (v, bad)
        if v != exp: return w + 'gave %s instead of %s' % (shorten(v), shorten(exp))
    have = r.files()
    for m in ms:
        if m.k == 'str': continue
        b = have.get(m.path)
        if m.dirty: continue
        if m.k[:2] == 'in':
            if (b or b'') != bytes(m.data): return '%sthe file being read changed' % what
        elif crashed:
            if b is None and not m.flushed and not m.exists: continue
            if not m.mixok(b or b'') and b is not None: 
                # opening for replacement may not have happened yet
                if m.n >= len(res) : continue
                return '%safter the death %s holds %s, flushed was %s' % (what, m.path, shorten(b), shorten(m.flushed))
            if b is None and m.flushed: return '%safter the death %s is gone' % (what, m.path)
            if m.flushed: o.probe('flushed-survived')
        elif b != bytes(m.data): return '%s%s holds %s instead of %s' % (what, m.path, shorten(b), shorten(bytes(m.data)))
    if not crashed:
        x = nj.exitline(r)
        if x.get('open') != '0': return '%s%s file handles are still open at the end' % (what, x.get('open'))

def shorten(v):
    if isinstance(v, tuple): return (v[0], shorten(v[1]))
    if isinstance(v, bytes): return '%d bytes %r' % (len(v), v[:80])
    return v

def scen(case, P):
    s = nj.steps([e for _, e, _, _ in P], pre='(defmacro def! (s v) `(def ~s ~v))', raw=True).add('loglevel 2')
    s = nj.steps([e.replace('(def! ', '(set-in! G :') if False else e for _, e, _, _ in P], raw=True,
                 pre=''.join('(def %s #nil)' % x for x in ['rb'] + ['%s%d' % (c, n) for n in range(len(case['hs'])) for c in 'hp'])).add('loglevel 2')
    for n, h in enumerate(case['hs']):
        if h.get('init') is not None and h['k'] != 'str': s.file('/sim/f%d' % n, bytes.fromhex(h['init']))
    for l in case['env']: s.add(l)
    return s

def after_close(case, env, o):
    """The known finding: an operation on a handle that was closed."""
    s = nj.steps(['(do (set! h (file/open-output* "f" :replace)) :ok)', '(do (file/close* h) :ok)', case['after'].replace('%', 'h')], '(def h #nil)')
    r = o.see(env.world(True).run(s))
    if always_bad(r, o, ''): return
    if nj.results(r).get(2, '') != '(:exc %s)' % TRY: o.violation('memory', 'not refused: %s' % nj.results(r))

def execute(case, env, o):
    if 'after' in case: return after_close(case, env, o)
    if not case['ops'] or not case['hs']: raise Invalid()
    for h in case['hs']:
        if h['k'] in ('in', 'inp') and h.get('init') is None: raise Invalid()
        if h['k'] not in ('in', 'out', 'app', 'str', 'inp', 'outp'): raise Invalid()
    if any(f['err'] <= 0 for x in case['runs'] for f in x['f']): raise Invalid()
    P = rewinds(case, plan(case))
    P = [(n, e.replace('(def! ', '(set! '), k, x) for n, e, k, x in P]
    w = env.world(case.get('asan', False))
    base = o.see(w.run(scen(case, P)))
    if always_bad(base, o): return
    if base.kind != 'exit' or base.status: o.violation('ending', 'ended by %s %s' % (base.kind, base.status)); return
    m = judge(case, P, base, o, 'without faults: ')
    if m: o.violation('model', m); return
    n = nj.calls(base)
    for x in case['runs']:
        fl = nj.place(x['f'], n)
        s = scen(case, P)
        for l in fl: s.add(l)
        if 'cap' in x: s.add('cap %d' % x['cap'])
        if 'gc' in x:
            for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'with %s%s: ' % (fl, ' cap %d' % x['cap'] if 'cap' in x else '')
        if always_bad(r, o, what): return
        if r.kind not in ('exit', 'crash') or (r.kind == 'exit' and r.status):
            o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.head['faults'] and len(case['ops']) >= 8: o.nontrivial = True
        m = judge(case, P, r, o, what)
        if m: o.violation('model', m); return
    o.key = repr((case['ops'], case['runs']))
