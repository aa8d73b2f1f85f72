"""Helpers to write Nujel expressions, run them and read what came out."""
from world import Scenario, H

E = dict(EIO=5, ENOSPC=28, EACCES=13, EMFILE=24, EINTR=4, EDQUOT=122, ENOENT=2, EROFS=30, ENOMEM=12, EBUSY=16, EPERM=1,
         ENOTEMPTY=39, ECONNREFUSED=111, ETIMEDOUT=110, ENOBUFS=105, ECONNRESET=104, EHOSTUNREACH=113, ENETUNREACH=101, EPIPE=32,
         EAGAIN=11, ENFILE=23, EINVAL=22, ENOTTY=25, ELOOP=40, ENAMETOOLONG=36, ECHILD=10, ESTALE=116, EFBIG=27)
CRASH = 9999

def buf(b): return '#m' + bytes(b).hex().upper() if b else '(buffer/allocate 0)'
def bstr(b):
    """An expression whose value is the string of these bytes."""
    if all(32 <= c < 127 and c not in (34, 92) for c in b): return '"' + bytes(b).decode() + '"'
    return '(buffer->string ' + buf(b) + ')'
def made(b, how):
    """An expression whose value is the string of these bytes, come about in one of many ways."""
    b = bytes(b); x = bstr(b); n = len(b)
    k = how % 16
    if k == 1: return '(image/deserialize (image/serialize %s))' % x
    if k == 2: return '(:cut %s 3 %d)' % (bstr(b'/a/' + b + b'/zz'), n + 3)
    if k == 3: return '(buffer->string %s %d 2)' % (buf(b'..' + b + b'zzzz'), n + 2)
    if k == 4: return '(cat %s %s)' % (bstr(b[:n // 2]), bstr(b[n // 2:]))
    if k == 5: return '(with-string-port p (:block-write p %s))' % x
    if k == 6 and n: return '(car (split %s "\\n"))' % bstr(b + b'\nzz') if b'\n' not in b and b'\0' not in b else x
    if k == 7: return '(buffer->string (:buffer (:u8 %s)))' % buf(b)
    if k == 8: return '(let ((b (buffer/allocate %d))) (buffer/copy b %s 0) (buffer->string b %d))' % (n + 9, x, n)
    if k == 9: return '(car (cdr (image/deserialize (image/serialize (list 1 %s "tail")))))' % x
    if k == 10 and n and all(33 <= c < 127 and chr(c) not in '"\\' for c in b): return '(string/display (read/single (string/write %s)))' % x
    return x
def hx(b): return '#m' + bytes(b).hex().upper()

# (T f): the value of (f), or (:exc TYPE) should it throw
# (T f): the value of (f), or (:exc TYPE) should it throw. (R n f) prints it as =n VALUE,
# RB prints strings and buffers in full, as raw bytes with their length in front.
PRE = r'''(defn T (f) (try (fn (e) (list :exc (car e))) (f)))
(defn R (n f) (def v (string/write (T f))) (print (cat "=" n " " v "\n")))
(defn RB (n f)
  (def v (T f))
  (if (or (= (:type-name v) :string) (= (:type-name v) :buffer))
      (do (print (cat "%" n " " (:type-name v) " " (:length v) "\n")) (file/write* stdout* v) (print "\n"))
      (print (cat "=" n " " (string/write v) "\n"))))'''

def exprs(*xs):
    s = Scenario().args('nujel')
    for x in xs: s.args('-x', x)
    return s

def steps(xs, pre='', raw=False):
    """A scenario with the numbered steps xs; the result of each is printed."""
    return exprs(PRE + pre, *['(R%s %d (fn () %s))' % ('B' if raw else '', i, x) for i, x in enumerate(xs)])

def parse(out):
    """[(end offset, step, value)]; a value is its printed form, or (type, bytes)."""
    i, L = 0, []
    while i < len(out):
        j = out.find(b'\n', i)
        if j < 0: break
        l = out[i:j]
        i = j + 1
        while l[:3] == b'p> ' or l[:2] == b'> ': l = l[2 + (l[:1] == b'p'):]      # the prompts our programs and the REPLs use
        if l[:1] == b'=':
            k, _, v = l[1:].partition(b' ')
            if k.isdigit(): L.append((i, int(k), v.decode('latin-1')))
        elif l[:1] == b'%':
            w = l[1:].split(b' ')
            if len(w) == 3 and w[0].isdigit() and w[2].isdigit():
                n = int(w[2])
                if i + n + 1 > len(out): break
                L.append((i + n + 1, int(w[0]), (w[1].decode('latin-1').lstrip(':'), out[i:i+n])))
                i += n + 1
    return L

def results(r):
    return {k: v for _, k, v in parse(r.out)}

def timeline(r):
    """(step, log line, data) of everything that happened. Needs loglevel 2."""
    ends = [(e, k) for e, k, _ in parse(r.out)]
    out, step, k, res = 0, 0, 0, []
    for l, d in r.events():
        if l.startswith('out '):
            out += int(l.split(' ')[1])
            while k < len(ends) and ends[k][0] <= out:
                step = ends[k][1] + 1; k += 1
        else:
            res.append((step, l, d))
    return res

def calls(r):
    """How often each kind of system call was made."""
    d = {}
    for l in r.log.split('\n'):
        if l.startswith('calls '):
            w = l.split(' ')[1:]
            for a, b in zip(w[::2], w[1::2]): d[a] = int(b)
    return d

def exitline(r):
    for l in r.log.split('\n'):
        if l.startswith('exit '): return dict(x.split('=') for x in l.split(' ')[2:])
    return {}

def place(fs, n):
    """Fault lines for faults at fractional positions, given the calls of a fault-free run."""
    L = []
    for f in fs:
        k = n.get(f['op'], 0)
        if not k: continue
        i = f['pos'] * k // 1000000
        L.append('fault %s %d %d %d' % (f['op'], -i - 1 if f.get('on') else i, f['err'], f.get('arg', 0)))
    return L

def gen_faults(R, ops, n=None):
    """ops: {op: [errnos]}; n faults at random fractional positions."""
    fs = []
    names = sorted(ops)
    for _ in range(n if n is not None else R.choice([1, 1, 1, 2, 3])):
        op = R.choice(names)
        f = {'op': op, 'pos': R.randrange(1000000), 'err': R.choice(ops[op])}
        if op in ('write', 'swrite') and R.random() < .5: f['arg'] = R.choice([1, 2, 7, 100, 511, 4095, 5000])
        if R.random() < .15: f['on'] = 1
        fs.append(f)
    return fs

def content(R, big=False):
    """File contents: sizes around the interesting boundaries, all byte values."""
    k = R.random()
    if k < .08: n = 0
    elif k < .5: n = R.randrange(1, 60)
    elif k < .8: n = R.choice([15, 16, 17, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025])
    else: n = R.choice([4095, 4096, 4097, 8191, 8192, 8193] + ([20000, 65535, 65536, 70001] if big else []))
    if big and k > .99: n = R.choice([131072, 262145, 1048575, 1048577])
    return data(R, n)

def data(R, n):
    m = R.randrange(4)
    if m == 0: return bytes(R.randrange(256) for _ in range(n))
    if m == 1: return (b'%d\n' % R.randrange(1000) * (n // 2 + 1))[:n]
    if m == 2: return bytes(97 + (i * 7 + i // 26) % 26 for i in range(n))
    p = bytes(R.randrange(256) for _ in range(R.randrange(1, 40)))
    return (p * (n // len(p) + 1))[:n]

def io_env(R):
    """Lines choosing how the system portions file transfers."""
    L = []
    if R.random() < .6: L.append('chunk file ' + ' '.join(str(R.choice([1, 2, 3, 7, 16, 100, 500, 4000, 0])) for _ in range(R.randrange(1, 6))))
    if R.random() < .5: L.append('bufsize %d' % R.choice([0, 1, 16, 64, 100, 512]))
    return L
