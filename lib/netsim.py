"""Simulated hosts and servers for the network checks."""
import nj
from nj import E
from harness import Invalid

FAULTS = {'gai': [-2, -3, -4, -11], 'socket': [E['EMFILE'], E['ENOBUFS'], E['EACCES']], 'connect': [E['ETIMEDOUT'], E['ENETUNREACH'], E['EHOSTUNREACH'], E['EINTR'], E['ECONNREFUSED']],
          'fdopen': [E['ENOMEM']], 'sread': [E['ECONNRESET'], E['ETIMEDOUT'], E['EIO'], E['EINTR']], 'swrite': [E['EPIPE'], E['ECONNRESET'], E['EINTR']], 'sclose': [E['EIO']]}
REFUSE = [E['ECONNREFUSED'], E['ETIMEDOUT'], E['ENETUNREACH'], E['EACCES']]

def gen_host(R, i):
    """[[family, how]...]; how: 'ok', or an errno."""
    if R.random() < .06: return None                 # does not resolve
    n = R.choice([1, 1, 1, 2, 2, 3, 4])
    h = [[R.choice('4446x' if n > 1 else '4446'), R.choice(['ok', 'ok', R.choice(REFUSE)]) if n > 1 or R.random() < .1 else 'ok'] for _ in range(n)]
    return h

def addr(fam, i, k): return ('10.%d.%d.%d' % (i, k, 7 + k)) if fam == '4' else '2001:db8::%x:%x' % (i + 1, k + 1)

def gen_seg(R):
    return [R.choice([1, 1, 2, 3, 5, 17, 100, 536, 1460, 4096, 0]) for _ in range(R.randrange(0, 6))]

def lines(i, name, host, port, term, resp, end, delay, seg):
    """Scenario lines for request i."""
    L = []
    if host is None: return L
    if not host: raise Invalid()
    spec = []
    for k, (fam, how) in enumerate(host):
        if fam not in ('4', '6', 'x'): raise Invalid()
        spec.append(fam + ':' + (addr(fam, i, k) if fam != 'x' else 'u'))
        if fam == 'x': continue
        if how == 'ok':
            L.append('srv %s %d accept %s %d %d %s %s' % (addr(fam, i, k), port, term.hex(), end, delay, resp.hex() or '-', ' '.join(map(str, seg))))
        elif how in REFUSE: L.append('srv %s %d refuse %d' % (addr(fam, i, k), port, how))
        else: raise Invalid()
    return ['host %s %s' % (name.encode().hex(), ' '.join(spec))] + L

def connects(i, name, host, port, es):
    """Judge the connection attempts in the events of one request: (got a stream, None) or (False, what is wrong)."""
    gai = [d for l, d in es if l.startswith('getaddrinfo')]
    if gai != [name.encode()]: return False, 'looked up %r instead of %r' % (gai, name)
    if host is None or any(l.startswith('FAULT gai') for l, d in es):
        if any(l.startswith('connect ') for l, d in es): return False, 'connected though the name did not resolve'
        return False, None
    want = [addr(f, i, k) for k, (f, how) in enumerate(host) if f != 'x']
    at = 0; sock = None; got = False; opened = False
    for l, d in es:
        w = l.split(' ')
        if w[0] == 'socket':
            if got: return False, 'another socket after a connection was made'
            if l.endswith(' fails'):
                at += 1
        elif w[0] == 'connect':
            if got: return False, 'another connection after one was made'
            if at >= len(want): return False, 'connection attempt number %d, there are %d addresses' % (at + 1, len(want))
            if w[2] != want[at] or w[3] != str(port): return False, 'connecting to %s port %s instead of %s port %d' % (w[2], w[3], want[at], port)
            how = [h for k, (f, h) in enumerate(host) if f != 'x'][at]
            at += 1
            got = how == 'ok' and not l.endswith(' fails')
        elif w[0] == 'fdopen':
            opened = not l.endswith(' fails')
    if not got and at < len(want): return False, 'gave up after %d of %d addresses' % (at, len(want))
    return got and opened, None

def request(es):
    return b''.join(d for l, d in es if l.startswith('swrite '))

def groups(r, names):
    """The events of each request, told apart by the name it looks up."""
    ev, cur, pend = {}, None, []
    for st, l, d in nj.timeline(r):
        if l.startswith('FAULT gai'): pend.append((l, d)); continue
        if l.startswith('getaddrinfo'):
            nm = d.decode('latin-1')
            cur = names.index(nm) if nm in names else st
            ev.setdefault(cur, []).extend(pend); pend = []
        ev.setdefault(cur, []).append((l, d))
    return ev
