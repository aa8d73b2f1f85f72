"""C08: a Gopher request returns the document the server sent, or fails cleanly."""
import nj, gcsched, netsim
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C08'
LEVEL = 'exploration'
RULE = ('case = 1-4 fetches of menus and texts with seeded hosts, ports, selectors and address lists, run without and then with seeded segmentation, delays, failing network calls and collections; '
        'non-trivial when more than one segment arrived or something failed; distinct by case')
ASSUMPTIONS = ['resolver, TCP and server are models: in-order bytes, then end of stream, reset or silence', 'Gopher has no length field: whatever arrived before the end of the stream is the document']
NOTE = 'Sampled fetches against scripted servers; every byte of request and response compared; leaks at exit.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['text', 'menu', 'empty', 'reset', 'stall', 'unresolved', 'no-address', 'second-address', 'failed-clean', 'despite-fault', 'alloc-failed', 'bad-url']

def budget(tier): return 900 if tier == 'quick' else 30000

TOKEN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'
PATHC = TOKEN + '/._~!$&\'()*+,;=:@%?#[]|^"<>{}\\ \t'
FIELD = TOKEN + ' .,/()"\'\\{}\xe9\x01'

def word(R, n, al=TOKEN): return ''.join(R.choice(al) for _ in range(n))

def gen_line(R):
    k = R.random()
    if k < .08: return R.choice(['.', '', ' ', ' indented', '.dot'])
    cols = [word(R, R.choice([0, 1, 10, 60]), FIELD), word(R, R.choice([0, 1, 10, 60]), FIELD), word(R, R.choice([0, 3, 12]), FIELD), R.choice(['70', '105', '7070', ''])]
    n = R.choice([4, 4, 4, 4, 3, 2, 1, 5])
    return R.choice('01ighI9T+d7:') + '\t'.join((cols + ['+'])[:n])

def gen(R, i, tier):
    reqs = []
    for k in range(R.randrange(1, 5)):
        q = {'name': word(R, R.randrange(1, 12)).lower().strip('-') + 'h%d.example' % k, 'port': R.choice([0, 0, 70, 7070, 65535, 1]), 'path': R.choice(['', '/']) if R.random() < .3 else '/' + word(R, R.choice([1, 5, 30, 200]), PATHC),
             'host': netsim.gen_host(R, k), 'delay': R.choice([0, 1, 50, 5000]), 'end': R.choice([0, 0, 0, 0, 0, 0, 1, 2]), 'type': R.choice(['', '', ':1', ':0', ':9'])}
        if R.random() < .04: q['url'] = R.choice(['http://x/', 'gopher:/x/', '', 'x gopher://y/'])
        if q['type'] in ('', ':1'): q['menu'] = [gen_line(R) for _ in range(R.choice([0, 1, 2, 5, 20, 150]))]
        else: q['text'] = nj.data(R, R.choice([0, 1, 2, 100, 4096, 8191, 8192, 8193, 16384, 30000] + ([65535, 65536, 65537, 300000] if R.random() < .1 else []))).hex()
        q['nl'] = R.random() < .8
        reqs.append(q)
    runs = []
    for _ in range(4):
        r = {'f': nj.gen_faults(R, netsim.FAULTS, R.choice([0, 0, 1, 1, 2])), 'seg': [netsim.gen_seg(R) for _ in reqs]}
        if R.random() < .3: r['buf'] = R.choice([0, 1, 64, 1000, 5000])
        if R.random() < .5: r['gc'] = gcsched.gen(R, 12)
        if R.random() < .12: r['oom'] = R.randrange(1000000)
        runs.append(r)
    return {'reqs': reqs, 'runs': runs, 'asan': R.random() < .1}

def body(q):
    if 'menu' in q:
        if any(c not in FIELD + '+\t:.' for l in q['menu'] for c in l): raise Invalid()
        return ('\r\n'.join(q['menu']) + ('\r\n' if q['nl'] else '')).encode('latin-1')
    return bytes.fromhex(q['text'])

def menu(q):
    L = []
    for l in q['menu']:
        if l[:1] in ('', '.', ' '): continue
        c = l[1:].split('\t')
        c = c + ['', '', '', '70'][len(c):] if len(c) < 4 else c[:4]
        L.append(l[0] + '\t' + '\t'.join(c[:4]))
    return L

def scen(case, segs):
    xs = []
    for k, q in enumerate(case['reqs']):
        if not q['name'] or any(c not in TOKEN + '.' for c in q['name']) or q['type'] not in ('', ':1', ':0', ':9') or ('menu' in q) != (q['type'] in ('', ':1')): raise Invalid()
        if q['path'] and (q['path'][0] != '/' or any(c not in PATHC for c in q['path'])) or not 0 <= q['port'] <= 65535: raise Invalid()
        if 'url' in q and q['url'] not in ('http://x/', 'gopher:/x/', '', 'x gopher://y/'): raise Invalid()
        url = q.get('url', 'gopher://' + q['name'] + (':%d' % q['port'] if q['port'] else '') + q['path'])
        xs += ['(do (set! r #nil) (set! r (gopher/get %s%s)) (if (= (:type-name r) :pair) :menu r))' % (nj.bstr(url.encode('latin-1')), ' ' + q['type'] if q['type'] else ''),
               '(when (= (:type-name r) :pair) (join (map r (fn (i) (cat (:string (ref i :type)) "\\t" (ref i :display) "\\t" (ref i :path) "\\t" (ref i :host) "\\t" (ref i :port)))) "\\n"))']
    s = nj.steps(xs, pre='(import (get :as gopher/get) :net/gopher) (def r #nil)', raw=True).add('loglevel 2')
    for k, q in enumerate(case['reqs']):
        for l in netsim.lines(k, q['name'], q['host'], q['port'] or 70, b'\r\n', body(q), q['end'], q['delay'], segs[k] if k < len(segs) else []): s.add(l)
    return s

def judge(case, r, o, what, oom):
    res = nj.results(r)
    ev = netsim.groups(r, [q['name'] for q in case['reqs']])
    for k, q in enumerate(case['reqs']):
        v, m = res.get(2 * k), res.get(2 * k + 1)
        es = ev.get(k, [])
        me = '%sfetch %d (%s:%s%s): ' % (what, k, q['name'], q['port'] or '', q['path'][:60])
        if 'url' in q:
            if es or not (v is None and (oom or r.kind == 'blocked') or v == '#nil' or isinstance(v, str) and v.startswith('(:exc')): return ('url', me + 'gave %s for %r' % (v, q['url']))
            o.probe('bad-url')
            if v is None and r.kind == 'blocked': return None
            continue
        got, bad = netsim.connects(k, q['name'], q['host'], q['port'] or 70, es)
        if oom and bad: got = False
        elif bad: return ('connect', me + bad)
        if q['host'] is None: o.probe('unresolved')
        elif not got: o.probe('no-address')
        elif sum(1 for l, d in es if l.startswith('connect')) > 1: o.probe('second-address')
        hard = [l for l, d in es if l.startswith('FAULT') and l.split(' ')[1] in ('sread', 'swrite', 'fdopen', 'sclose')]
        rq = netsim.request(es)
        if got and not hard and not oom or rq.endswith(b'\r\n'):
            if rq != (q['path'] + '\r\n').encode('latin-1'): return ('request', me + 'sent %r' % rq[:1000])
        if q['end'] == 2 and got and (r.kind == 'blocked' and v is None or not hard and not oom):
            if r.kind != 'blocked': return ('stall', me + 'went on though the server has not finished: %r' % (v,))
            o.probe('stall'); return None
        if v is None:
            if oom: continue
            return ('missing', me + 'gave no result')
        if isinstance(v, tuple) or v == ':menu' or (v == '#nil' and 'menu' in q and got and not menu(q)):
            if v == '#nil' and (hard or q['end']): continue
            if not got or q['end']: return ('wrong', me + 'returned %s without a complete response' % short(v))
            if 'menu' in q:
                if v == '#nil': o.probe('empty'); continue
                want = ('string', '\n'.join(menu(q)).encode('latin-1'))
                if oom and not isinstance(m, tuple): continue
                if v != ':menu' or m != want: return ('wrong', me + 'the menu is %s instead of %s' % (short(m), short(want)))
                o.probe('menu')
            else:
                if v != ('string', body(q)): return ('wrong', me + 'returned %s instead of %s' % (short(v), short(('string', body(q)))))
                o.probe('text')
            if hard: o.probe('despite-fault')
        else:
            if v != '#nil' and not v.startswith('(:exc'): return ('wrong', me + 'returned %s' % short(v))
            if got and not q['end'] and not hard and not oom: return ('lost', me + 'returned %s though the response was complete' % short(v))
            if q['end'] == 1: o.probe('reset')
            o.probe('failed-clean')
    return None

def execute(case, env, o):
    if not case['reqs'] or len(set(q['name'] for q in case['reqs'])) != len(case['reqs']): raise Invalid()
    w = env.world(case.get('asan', False))
    base, n, span = None, {}, None
    for k, x in enumerate([None] + case['runs']):
        s = scen(case, x['seg'] if x else [])
        fl = []
        if x:
            fl = nj.place(x['f'], n)
            for l in fl: s.add(l)
            if 'buf' in x: s.add('bufsize %d' % x['buf'])
            if 'gc' in x:
                for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
            if 'oom' in x and span:
                l = 'fault malloc %d 12' % (span[0] + (span[1] - span[0]) * x['oom'] // 1000000)
                fl = fl + [l]; s.add(l)
        if base is not None: s.add('gcat %d' % (base.head['safepoints'] - 3))
        r = o.see(w.run(s))
        if base is None:
            base = r; n = nj.calls(r)
            ms = [int(l.split(' ')[3]) for l in r.log.split('\n') if l.startswith('out ')]
            span = (ms[0], ms[-1]) if ms else None
        what = 'run %d%s: ' % (k, ' with ' + str(fl) if fl else '')
        if always_bad(r, o, what): return
        oom = 'FAULT malloc' in r.log
        if oom: o.probe('alloc-failed')
        if fl or (x and any(x['seg'])): o.nontrivial = True
        if r.kind not in ('exit', 'blocked') or (r.kind == 'exit' and r.status and not oom): o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.kind == 'blocked' and 'before it sent' in r.log.split('blocked: ')[-1].split('\n')[0]:
            o.violation('request', what + 'waits for a response before it sent a complete request'); return
        bad = judge(case, r, o, what, oom)
        if bad: o.violation(*bad); return
        if r.kind == 'exit' and not oom:
            e = nj.exitline(r)
            if e.get('socks') != '0' or e.get('open') != '0' or e.get('gai') != '0': o.violation('leak', '%sat the end %s' % (what, e)); return
    o.key = repr(case)

def short(v):
    if isinstance(v, tuple): return '%s of %d bytes %r' % (v[0], len(v[1]), v[1][:200])
    return v
