"""C07: an HTTP request returns the response the server sent, or fails cleanly."""
import nj, gcsched, netsim
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C07'
LEVEL = 'exploration'
RULE = ('case = 1-4 requests with seeded hosts (address lists mixing refused, odd and accepting addresses), paths, header fields, responses (any bytes, truncated, malformed, reset, stalled), run without and then '
        'with seeded segmentation, delays, failing network calls and collections; non-trivial when more than one segment arrived or something failed; distinct by case')
ASSUMPTIONS = ['resolver, TCP and server are models: in-order bytes, then end of stream, reset or silence', 'a server that stays silent makes the client wait: there is no timeout to check',
               'chunked transfer coding is not decoded, by design: bodies come back as sent']
NOTE = 'Sampled requests against scripted servers; every byte of request and response compared; leaks at exit; no trust in anything but the TCP model and glibc stdio.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['complete', 'net-get', 'download', 'download-refused-status', 'headers-sent', 'truncated', 'malformed', 'reset', 'stall', 'unresolved', 'second-address', 'no-address', 'failed-clean', 'despite-fault', 'alloc-failed']

def budget(tier): return 900 if tier == 'quick' else 30000

TOKEN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'
PATHC = TOKEN + '/._~!$&\'()*+,;=:@%?#[]|^"<>{}\\'

def word(R, n, al=TOKEN): return ''.join(R.choice(al) for _ in range(n))

def gen_resp(R):
    st = R.choice([200, 200, 200, 201, 204, 299, 300, 301, 304, 404, 500, 999, 100])
    msg = R.choice(['OK', 'Not Found', '', 'a  b c', 'I\'m a teapot', 'x' * 70])
    names, hs = set(), []
    for _ in range(R.choice([0, 1, 2, 3, 8, 25])):
        n = word(R, R.randrange(1, 20))
        if n.lower() in names or n.lower() == 'content-length': continue
        names.add(n.lower())
        v = ''.join(R.choice(TOKEN + ' ":;,/=()\t\xe9') for _ in range(R.choice([0, 1, 5, 40, 300]))).strip()
        hs.append([n, v])
    body = nj.data(R, R.choice([0, 1, 2, 5, 100, 1000, 4095, 4096, 4097, 8192, 30000] + ([65535, 65536, 65537, 140000, 600000] if R.random() < .15 else [])))
    if R.random() < .2: body = R.choice([b'\r\n\r\n', b'\r\n', b'\0', b'HTTP/1.1 500 no\r\n\r\n', b'\n\n']) + body + R.choice([b'', b'\r\n', b'\r\n\r\n', b'\0'])
    cl = R.choice(['no', 'Content-Length', 'content-length', 'Content-length'])
    kind = R.choice(['ok'] * 8 + ['cut-body', 'cut-head', 'no-status', 'bad-status', 'empty', 'reset', 'stall'])
    return {'st': st, 'msg': msg, 'h': hs, 'body': body.hex(), 'cl': cl, 'clat': R.randrange(30), 'kind': kind, 'cut': R.randrange(1000000), 'sp': [R.choice(['', ' ', '  ', '\t']) for _ in range(4)]}

def gen(R, i, tier):
    reqs = []
    for k in range(R.randrange(1, 5)):
        path = '/' + word(R, R.choice([0, 0, 1, 5, 30, 200] + ([3000, 5000] if R.random() < .2 else [])), PATHC)
        way = R.choice(['http', 'http', 'http', 'get', 'download', 'req'])
        q = {'name': word(R, R.randrange(1, 12)).lower().strip('-') + 'h%d.example' % k, 'path': path, 'bare': R.random() < .08, 'way': way, 'host': netsim.gen_host(R, k), 'resp': gen_resp(R), 'delay': R.choice([0, 1, 50, 5000])}
        if way == 'req':
            q['verb'] = R.choice(['GET', 'HEAD', 'OPTIONS'])
            q['hdr'] = [[word(R, R.randrange(1, 12), TOKEN[:52]), word(R, R.randrange(0, 30), TOKEN + ' /;=,')] for _ in range(R.randrange(0, 5))]
            if R.random() < .2: q['hdr'].append(['Host', 'other'])
        if way == 'download': q['named'] = R.random() < .6
        reqs.append(q)
    runs = []
    for _ in range(4):
        r = {'f': nj.gen_faults(R, netsim.FAULTS, R.choice([0, 0, 1, 1, 2])), 'seg': [netsim.gen_seg(R) for _ in reqs]}
        if R.random() < .3: r['buf'] = R.choice([0, 1, 64, 1000, 5000])
        if R.random() < .5: r['gc'] = gcsched.gen(R, 12)
        if R.random() < .12: r['oom'] = R.randrange(1000000)
        runs.append(r)
    return {'reqs': reqs, 'runs': runs, 'asan': R.random() < .1}

def wire(p):
    """(bytes the server sends, how it ends, expected result or None, kind)."""
    body = bytes.fromhex(p['body'])
    hs = [list(x) for x in p['h']]
    if p['cl'] != 'no' or p['kind'] == 'cut-body': hs.insert(min(p['clat'], len(hs)), [p['cl'] if p['cl'] != 'no' else 'Content-Length', str(len(body))])
    if any(not n or ':' in n for n, v in hs): raise Invalid()
    if len(set(n.lower() for n, v in hs)) != len(hs): raise Invalid()
    if any(x in ' \t' for n, v in hs for x in v[:1] + v[-1:]) or any(x in v for n, v in hs for x in '\r\n'): raise Invalid()
    line = 'HTTP/1.1 %d%s' % (p['st'], ' ' + p['msg'] if p['msg'] else '')
    sp = (p['sp'] + ['', '', '', ''])[:4]
    if any(x not in ('', ' ', '  ', '\t') for x in sp): raise Invalid()
    head = line + '\r\n' + ''.join('%s:%s%s%s\r\n' % (n, sp[k % 4], v, sp[(k + 1) % 4] if v else '') for k, (n, v) in enumerate(hs))
    raw = (head + '\r\n').encode('latin-1') + body
    want = {'st': p['st'], 'msg': p['msg'], 'h': hs, 'body': body}
    k, end = p['kind'], 0
    if k == 'ok': return raw, 0, want, k
    if k == 'cut-body':
        if not body: return raw, 0, want, 'ok'
        return raw[:len(raw) - 1 - p['cut'] % len(body)], 0, None, 'truncated'
    if k == 'cut-head':
        n = len(raw) - len(body)
        return raw[:p['cut'] % n], 0, None, 'truncated'
    if k == 'no-status': return b'nonsense' + raw[len(line):], 0, None, 'malformed'
    if k == 'bad-status': return raw.replace(str(p['st']).encode(), b'twenty', 1), 0, None, 'malformed'
    if k == 'empty': return b'', 0, None, 'malformed'
    if k == 'reset': return raw[:p['cut'] % (len(raw) + 1)], 1, None, 'reset'
    if k == 'stall': return raw[:p['cut'] % (len(raw) + 1)], 2, None, 'stall'
    raise Invalid()

def check_req(q, k):
    if not q['name'] or any(c not in TOKEN + '.' for c in q['name']): raise Invalid()
    if not q['path'].startswith('/') or any(c not in PATHC for c in q['path']): raise Invalid()
    if q['way'] not in ('http', 'get', 'download', 'req'): raise Invalid()
    for n, v in q.get('hdr', []):
        if not n or any(c not in TOKEN for c in n) or any(c not in TOKEN + ' /;=,' for c in v): raise Invalid()
    if q['way'] == 'req' and q.get('verb') not in ('GET', 'HEAD', 'OPTIONS'): raise Invalid()

def scen(case, segs):
    xs = []
    for k, q in enumerate(case['reqs']):
        check_req(q, k)
        path = '' if q['bare'] and q['way'] in ('http', 'get') else q['path']
        url = nj.bstr(('http://' + q['name'] + path).encode())
        if q['way'] == 'http': x = '(http/get %s)' % url
        elif q['way'] == 'get': x = '(net/get %s)' % url
        elif q['way'] == 'download': x = '(net/download %s%s)' % (url, ' "dl%d"' % k if q['named'] else '')
        else:
            hd = ''.join(' (set! h (:keyword %s) %s)' % (nj.bstr(n.encode()), nj.bstr(v.encode())) for n, v in q['hdr'])
            x = '(let ((h {}) (f (ref (module/load :net/http) :req*)))%s (set! hk h) (if f (f "%s" %s %s h) :none))' % (hd, q['verb'], nj.bstr(q['name'].encode()), nj.bstr(q['path'].encode()))
        xs += ['(do (set! r #nil) (set! r %s) (if (= (:type-name r) :tree) (ref r :body) r))' % x, '(ref r :status-code)', '(ref r :http-version)', '(ref r :status-message)',
               '(:length (:keys (ref r :headers)))', '(join (map (:keys (ref r :headers)) (fn (k) (cat (:string k) "=" (ref (ref r :headers) k)))) "\\n")']
        if q['way'] == 'req': xs.append('(join (map (:keys hk) (fn (k) (cat (:string k) "=" (ref hk k)))) "\\n")')
        else: xs.append('0')
    s = nj.steps(xs, pre='(import (get :as http/get) :net/http) (import (get :as net/get download :as net/download) :net) (def r #nil) (def hk #nil)', raw=True).add('loglevel 2')
    for k, q in enumerate(case['reqs']):
        raw, end, want, kind = wire(q['resp'])
        for l in netsim.lines(k, q['name'], q['host'], 80, b'\r\n\r\n', raw, end, q['delay'], segs[k] if k < len(segs) else []): s.add(l)
    return s

N = 7
def judge(case, r, o, what, oom):
    res = nj.results(r)
    ev = netsim.groups(r, [q['name'] for q in case['reqs']])
    for k, q in enumerate(case['reqs']):
        es = ev.get(k, [])
        raw, end, want, kind = wire(q['resp'])
        v = res.get(N * k)
        me = '%srequest %d (%s http://%s%s): ' % (what, k, q['way'], q['name'], q['path'][:60])
        if v == ':none': continue                     # no such internal procedure
        got, bad = netsim.connects(k, q['name'], q['host'], 80, es)
        if oom and bad: got = False
        elif bad: return ('connect', me + bad)
        if q['host'] is None: o.probe('unresolved')
        elif not got: o.probe('no-address')
        elif sum(1 for l, d in es if l.startswith('connect')) > 1: o.probe('second-address')
        flt = [l for l, d in es if l.startswith('FAULT')]
        hard = [l for l in flt if l.split(' ')[1] in ('sread', 'swrite', 'fdopen', 'sclose')]
        # the request
        rq = netsim.request(es)
        if not hard and got and not oom or rq.endswith(b'\r\n\r\n'):
            hd = rq.split(b'\r\n')
            wl = ('%s %s HTTP/1.1' % (q.get('verb', 'GET') if q['way'] == 'req' else 'GET', '/' if q['bare'] and q['way'] in ('http', 'get') else q['path'])).encode()
            if hd[0] != wl or hd[-2:] != [b'', b''] or b'' in hd[1:-2]: return ('request', me + 'sent %r' % rq[:2000])
            have = {}
            for l in hd[1:-2]:
                a, _, b = l.partition(b': ')
                if a in have: return ('request', me + 'sent the field %r twice' % a)
                have[a] = b
            if have.get(b'Host') != q['name'].encode() or have.get(b'Connection') != b'close': return ('request', me + 'sent the fields %r' % have)
            if q['way'] == 'req':
                for n, val in dict((a, b) for a, b in q['hdr']).items():
                    if n in ('Host', 'Connection', 'User-Agent'): continue
                    if have.get(n.encode()) != val.encode(): return ('request', me + 'field %s was to be %r, sent %r' % (n, val, have))
                extra = set(have) - set(n.encode() for n, _ in q['hdr']) - {b'Host', b'Connection', b'User-Agent', b'Accept'}
                if extra: return ('request', me + 'sent fields nobody asked for: %r' % extra)
                mine = '\n'.join(sorted('%s=%s' % a for a in dict((a, b) for a, b in q['hdr']).items()))
                hk = res.get(N * k + 6)
                if isinstance(hk, tuple) and '\n'.join(sorted(hk[1].decode('latin-1').split('\n'))) != mine and not oom: return ('request', me + 'changed the header fields it was given into %r' % (hk,))
                o.probe('headers-sent')
        # the result
        if kind == 'stall' and got and (r.kind == 'blocked' and v is None or not hard and not oom):
            if r.kind != 'blocked': return ('stall', me + 'went on though the server has not finished: %r' % (v,))
            o.probe('stall'); return None
        if v is None:
            if oom: continue
            return ('missing', me + 'gave no result')
        fname = ('dl%d' % k if q.get('named') else q['path'].split('/')[-1]) if q['way'] == 'download' else None
        if q['way'] in ('get', 'download'):
            okst = want and want['st'] <= 299
            if isinstance(v, tuple) and q['way'] == 'get':
                if not got or not okst or v != ('buffer', want['body']): return ('wrong', me + 'returned %s' % short(v))
                o.probe('net-get')
            elif got and okst and not hard and not oom and q['way'] == 'get': return ('lost', me + 'returned %s though the response was complete' % short(v))
            if q['way'] == 'get': continue
            f = r.files().get(('/sim/' + fname)) if fname else None
            later = any(x['way'] == 'download' and k2 > k and not x.get('named') and x['path'].split('/')[-1] == fname for k2, x in enumerate(case['reqs']))
            earlier = any(x['way'] == 'download' and k2 < k and not x.get('named') and x['path'].split('/')[-1] == fname for k2, x in enumerate(case['reqs']))
            if later or earlier or not fname or '\\' in fname or any(l.startswith('FAULT') and l.split(' ')[1] not in netsim.FAULTS for l, d in es): continue
            if f is not None:
                if not got or not okst or (f != want['body']): return ('wrong', me + 'downloaded %r' % f[:200])
                o.probe('download')
            elif got and okst and not hard and not oom: return ('lost', me + 'no file was written though the response was complete: %s' % short(v))
            elif got and want and not okst: o.probe('download-refused-status')
            continue
        if isinstance(v, tuple):                      # a response
            if not got: return ('wrong', me + 'returned %s without a connection' % short(v))
            if want is None:
                full = wire(dict(q['resp'], kind='ok'))
                if kind == 'truncated' or kind == 'malformed': return ('wrong', me + 'returned %s for a %s response' % (short(v), kind))
                if raw != full[0]: return ('wrong', me + 'returned %s for a %s response' % (short(v), kind))
                want = full[2]
            if hard: o.probe('despite-fault')
            ws = [('buffer', want['body']), str(want['st']), ('string', b'HTTP/1.1'), ('string', want['msg'].encode('latin-1')), str(len(want['h']))]
            for z, x in enumerate(ws):
                y = res.get(N * k + z)
                if y != x and not (oom and y is None) and not (oom and isinstance(y, str) and y.startswith('(:exc')): return ('wrong', me + '%s is %s instead of %s' % (['body', 'status', 'version', 'message', 'number of fields'][z], short(y), short(x)))
            y = res.get(N * k + 5)
            if isinstance(y, tuple):
                have = sorted(y[1].decode('latin-1').split('\n')) if want['h'] else [y[1].decode('latin-1')]
                if have != (sorted('%s=%s' % (a, b) for a, b in want['h']) if want['h'] else ['']): return ('wrong', me + 'header fields %s instead of %s' % (have, want['h']))
            elif not oom: return ('wrong', me + 'header fields %s' % (y,))
            o.probe('complete')
        else:
            if v != '#nil' and not v.startswith('(:exc'): return ('wrong', me + 'returned %s' % short(v))
            if got and want and not hard and not oom: return ('lost', me + 'returned %s though the response was complete' % short(v))
            if kind in ('truncated', 'malformed', 'reset') and got: o.probe(kind)
            o.probe('failed-clean')
    return None

def execute(case, env, o):
    if not case['reqs'] or len(set(q['name'] for q in case['reqs'])) != len(case['reqs']): raise Invalid()
    w = env.world(case.get('asan', False))
    base, n = None, {}
    for k, x in enumerate([None] + case['runs']):
        s = scen(case, x['seg'] if x else [])
        fl = []
        if x:
            fl = nj.place(x['f'], n)
            for l in fl: s.add(l)
            if 'buf' in x: s.add('bufsize %d' % x['buf'])
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
            if 'oom' in x and span:
                l = 'fault malloc %d 12' % (span[0] + (span[1] - span[0]) * x['oom'] // 1000000)
                fl = fl + [l]; s.add(l)
        if base is not None: s.add('gcat %d' % (base.head['safepoints'] - 3))
        r = o.see(w.run(s))
        if base is None:
            base = r; n = nj.calls(r)
            ms = [int(l.split(' ')[3]) for l in r.log.split('\n') if l.startswith('out ')]
            span = (ms[0], ms[-1]) if ms else None
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        oom = 'FAULT malloc' in r.log
        if oom: o.probe('alloc-failed')
        if fl or (x and any(x['seg'])): o.nontrivial = True
        if r.kind not in ('exit', 'blocked') or (r.kind == 'exit' and r.status and not oom): o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.kind == 'blocked' and ('before it sent' in r.log.split('blocked: ')[-1].split('\n')[0]):
            o.violation('request', what + 'waits for a response before it sent a complete request'); return
        bad = judge(case, r, o, what, oom)
        if bad: o.violation(*bad); return
        if r.kind == 'exit' and not oom:
            e = nj.exitline(r)
            if e.get('socks') != '0' or e.get('open') != '0' or e.get('gai') != '0': o.violation('leak', '%sat the end %s' % (what, e)); return
    o.key = repr(case)

def short(v):
    if isinstance(v, tuple): return '%s of %d bytes %r' % (v[0], len(v[1]), v[1][:80])
    return v
