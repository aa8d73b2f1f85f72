"""C17: file-system queries and changes report what really happened."""
import nj, gcsched
from nj import E
from harness import always_bad, Invalid, REAL_ALL, STUB_ALL

ID = 'C17'
LEVEL = 'exploration'
RULE = ('case = a seeded directory tree with difficult names, links (also dangling and in circles), missing permissions and 6-30 operations on it (list, make, remove, change directory, query attributes, list recursively, write files) through absolute, relative and indirect paths, '
        'with a seeded listing order, once without faults and then with failing system calls and injected collections; every result and the tree left at the end are compared with a model; '
        'non-trivial when a fault fired or something was changed; distinct by operations and faults')
ASSUMPTIONS = ['a working directory of 512 bytes or more may be reported as unknown']
NOTE = 'Sampled operation sequences against a model of a directory tree; the in-memory file system stands in for the kernel and is trusted.'
REAL, STUB = REAL_ALL, STUB_ALL
PROBES = ['reported-failure', 'empty-dir', 'big-dir', 'recursive', 'hidden', 'missing', 'not-a-dir', 'not-empty', 'exists', 'long-cwd', 'special', 'removed', 'cd', 'through-link', 'loop', 'not-permitted', 'link-removed', 'owner']

FAULTS = {'stat': [E['EACCES'], E['EIO'], E['ELOOP']], 'unlink': [E['EACCES'], E['EPERM'], E['EBUSY'], E['EIO']], 'mkdir': [E['ENOSPC'], E['EACCES'], E['EROFS']],
          'rmdir': [E['EBUSY'], E['EACCES'], E['EIO']], 'chdir': [E['EACCES'], E['EIO']], 'getcwd': [E['EACCES'], E['ENOENT']], 'opendir': [E['EMFILE'], E['EACCES'], E['EIO']],
          'readdir': [E['EIO'], E['EIO'], E['ESTALE']]}
ROOT = '/sim/d'
NAMES = ['a', 'b', 'c.txt', 'dir', 'sub', '.h', '..x', '...', '.hidden', 'with space', ' lead', 'quo"te', 'back\\s', '-dash', '~', 'UPPER', 'upper', 'x' * 255, 'y' * 180, 'Ã¤Ã¶', '\xff\xfe', '#t', '#nil', '(', 'a.nuj', '0', '%s', '\x01', '{a}']

def budget(tier): return 700 if tier == 'quick' else 30000

def parent(p): return p.rpartition('/')[0] or '/'

READ, WRITE, SEARCH = 1, 2, 4

class N:
    """A directory ('d'), a link ('l') or anything else (the kind)"""
    def __init__(self, t, size=0, mtime=1600000000, uid=1000, gid=2000, deny=0, to=None):
        self.t, self.size, self.mtime, self.uid, self.gid, self.deny, self.to = t, size, mtime, uid, gid, deny, to

class Err(Exception): pass

class FS:
    """path -> node, as the kernel sees it"""
    def __init__(self, case):
        self.n = {'/': N('d', mtime=0, uid=0, gid=0), '/sim': N('d'), ROOT: N('d')}
        for p, what in case['tree']:
            if p in self.n or parent(p) not in self.n or self.n[parent(p)].t != 'd': raise Invalid()
            if what is None: self.n[p] = N('d')
            elif isinstance(what, str): self.n[p] = N('l', to=what)
            else: self.n[p] = N(what[2], what[0] if what[0] else what[3], what[1])
        for p, d in case.get('deny', []):
            if p not in self.n or self.n[p].t == 'l' or p == ROOT: raise Invalid()
            self.n[p].deny = d
        for p, u, g in case.get('own', []):
            if p not in self.n or self.n[p].t in 'ld': raise Invalid()
            self.n[p].uid, self.n[p].gid = u, g
        self.cwd = '/sim'
    def resolve(self, p, follow=True, base=None, depth=0):
        """The absolute path without links that p names; the last name need not exist"""
        if p == '': raise Err(2)
        if len(p) >= 4096: raise Err(36)
        if depth > 40: raise Err(40)
        cur = '/' if p[0] == '/' else base or self.cwd
        L = p.split('/')
        while L and L[-1] == '': L.pop()
        if p[-1] == '/' or p == '/': L.append('.')
        while L:
            x = L.pop(0)
            if x == '': continue
            if cur not in self.n: raise Err(2)
            if self.n[cur].t != 'd': raise Err(20)
            if self.n[cur].deny & SEARCH: raise Err(13)
            if len(x) > 255: raise Err(36)
            if x == '.': continue
            if x == '..': cur = parent(cur); continue
            q = cur.rstrip('/') + '/' + x
            if q not in self.n:
                if L: raise Err(2)
                return q
            if self.n[q].t == 'l' and (L or follow):
                return self.resolve(self.n[q].to + ('/' + '/'.join(L) if L else ''), follow, cur, depth + 1)
            cur = q
        return cur
    def at(self, p, follow=True):
        """The node p names, or None"""
        try: return self.n.get(self.resolve(p, follow))
        except Err: return None
    def where(self, p, follow=True):
        """(path, None) or (None, error)"""
        try: return self.resolve(p, follow), None
        except Err as e: return None, e.args[0]
    def mayChange(self, p): return not self.n[parent(p)].deny & WRITE
    def isdir(self, p): return p in self.n and self.n[p].t == 'd'
    def isfile(self, p): return p in self.n and self.n[p].t != 'd'
    def kids(self, p):
        q = p.rstrip('/') + '/'
        return [x[len(q):] for x in self.n if x != '/' and x.startswith(q) and '/' not in x[len(q):]]
    def empty(self, p): return not self.kids(p)

def render(R, fs, p):
    """Some way to name the absolute path p."""
    k = R.randrange(10)
    if R.random() < .4:
        # through a link that leads to where it is
        L = []
        for x, nd in fs.n.items():
            if nd.t != 'l' or x == p: continue
            t, e = fs.where(x)
            if t and t != ROOT and (p == t or p.startswith(t + '/')): L.append(x + p[len(t):])
        if L: p = R.choice(L)
        if len(p) > 1200: k = 0
    if k < 3: return p
    if k < 4: return p.replace('/', '//', 1) if R.random() < .5 else '/./' + p[1:]
    base = fs.cwd.rstrip('/') + '/'
    if p.startswith(base) and k < 9:
        q = p[len(base):]
        return q if R.random() < .7 else './' + q
    a, b = [x for x in fs.cwd.split('/') if x], [x for x in p.split('/') if x]
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return '/'.join(['..'] * (len(a) - i) + b[i:]) or '.'

def gen(R, i, tier):
    tree, dirs = [], [ROOT]
    names = R.sample(NAMES, R.randrange(3, len(NAMES)))
    def what():
        return [R.choice([0, 0, 0, 5000000000]), R.choice([0, 1, 1600000000, 4102444800]), R.choice(['f', 'f', 'f', 'f', 'c', 'b', 'p', 's']) if R.random() < .4 else 'f', R.randrange(40)]
    have = set()
    for _ in range(R.choice([0, 1, 3, 8, 20])):
        p = R.choice(dirs) + '/' + R.choice(names)
        if p in have or len(p) > 900: continue
        have.add(p)
        if R.random() < .45: tree.append([p, None]); dirs.append(p)
        else: tree.append([p, what()])
    if R.random() < .1:
        d = R.choice(dirs)
        for k in range(R.choice([40, 130, 300] + ([1100] if R.random() < .1 else []))):
            p = '%s/e%d' % (d, k)
            tree.append([p, None if k % 37 == 36 else [0, 1600000000, 'f', k % 3]])
    deep = None
    if R.random() < .1:
        deep = ROOT
        have |= {p for p, _ in tree}
        for x in ('v' * R.choice([240, 250, 255]), 'y' * R.choice([100, 180, 245, 246, 247, 248, 249, 250]), 'z' * R.choice([1, 200])):
            deep += '/' + x
            if deep not in have: tree.append([deep, None]); have.add(deep)
    case = {'tree': tree}
    if R.random() < .55:
        have = {p for p, _ in tree} | {ROOT, '/sim', '/'}
        ends = sorted(have) + [ROOT + '/gone', '/sim/none/at/all', 'a', '..', '../a', '.', 'dir/..', './c.txt', '/']
        for _ in range(R.choice([1, 2, 4, 8])):
            p = R.choice(dirs) + '/' + R.choice(['ln', 'ln2', '.ln', 'a', 'b', 'dir', 'link with space'])
            if p in have: continue
            have.add(p)
            tree.append([p, R.choice(ends) if R.random() < .9 else p])
    if tree and R.random() < .3:
        case['deny'] = [[p, R.randrange(1, 8)] for p in sorted({R.choice(tree)[0] for _ in range(R.choice([1, 2, 4]))}) if not isinstance(dict(map(tuple, [(q, w if isinstance(w, str) else None) for q, w in tree]))[p], str)]
    fl = [p for p, w in tree if isinstance(w, list)]
    if fl and R.random() < .3:
        case['own'] = [[p, R.choice([0, 1, 32767, 32768, 65534, 65536, 4294967294]), R.choice([0, 5, 32768, 65535, 100000, 4294967295])] for p in sorted({R.choice(fl) for _ in range(R.choice([1, 2, 4]))})]
    fs = FS(case)
    ops = []
    if deep:
        ops = [['cd', R.choice([deep, parent(deep)])], ['cwd']]
        for op in ops: expect(fs, op, [], None)
    for _ in range(R.randrange(6, 31)):
        k = R.choice(['ls', 'ls', 'ls', 'cwd', 'mkdir', 'mkdir', 'mkdir', 'rmdir', 'rmdir', 'rm', 'rm', 'cd', 'cd', 'cwd', 'stat', 'stat', 'file?', 'dir?', 'rec', 'rec', 'rel', 'put', 'put'])
        allp = sorted(x for x in fs.n if x.startswith(ROOT))
        p = R.choice(allp)
        if k in ('mkdir', 'put') or R.random() < .15: p = R.choice([x for x in allp if fs.isdir(x)] if R.random() < .9 else allp) + '/' + R.choice(names)
        if k in ('rmdir', 'cd', 'ls', 'rec') and R.random() < .6: p = R.choice([x for x in allp if fs.isdir(x)])
        if k in ('rm', 'put') and R.random() < .6 and any(fs.isfile(x) for x in allp): p = R.choice([x for x in allp if fs.isfile(x)])
        if len(p) > 1500: continue
        op = [k]
        if k == 'ls':
            op += [None if R.random() < .2 else render(R, fs, p), R.choice([None, True, True, False])]
            if op[1] is None: p = fs.cwd
        elif k == 'cwd': pass
        else: op.append(render(R, fs, p))
        if k == 'rel': op[1] = op[1] or '.'
        if k == 'put': op.append(R.randrange(30))
        if k == 'rec' and circles(case): continue
        if expect(fs, op, [], None) is SKIP: continue
        ops.append(op)
    runs = []
    for _ in range(3):
        r = {'f': nj.gen_faults(R, FAULTS)}
        if R.random() < .4: r['gc'] = gcsched.gen(R, 12)
        runs.append(r)
    return dict(case, ops=ops, how=R.choice([0, 0, 1, 3, 5, 7, 9]), perm=R.choice([0, 0, R.randrange(1, 1000), R.randrange(1, 1000)]), runs=runs, asan=R.random() < .12)

SKIP = object()
ANY = object()

def lat(p): return p.encode('latin-1')

def step(op, how=0):
    k = op[0]
    p = nj.made(lat(op[1]), how) if len(op) > 1 and op[1] is not None else '#nil'
    L = lambda e: '(let ((l %s)) (if (pair? l) (join l "\\n") l))' % e
    if k == 'ls': return L('(ls %s%s)' % (p, {None: '', True: ' #t', False: ' #f'}[op[2]]) if op[1] is not None or op[2] is not None else '(ls)')
    if k in ('mkdir', 'rmdir', 'rm', 'cd'): return '(%s %s)' % (k, p)
    if k == 'cwd': return '(cwd)'
    if k == 'stat': return ('(let ((s (file/stat %s))) (if (ref s :error?) (list :error (ref s :error-number) (:type-name (ref s :error-text)) (ref s :size)) (list (ref s :size) (ref s :modification-time) (ref s :access-time) '
                            '(ref s :user-id) (ref s :group-id) (ref s :regular-file?) (ref s :directory?) (ref s :character-device?) (ref s :block-device?) (ref s :named-pipe?) (ref s :error-number))))' % p)
    if k in ('file?', 'dir?'): return '(file/%s %s)' % (k, p)
    if k == 'rec': return L('(directory/read-recursive %s)' % p)
    if k == 'rel': return L('(directory/read-relative %s)' % p)
    if k == 'put': return '(spit %s "%s")' % (p, 'z' * op[2])
    raise Invalid()

def circles(case):
    """Could links lead around in circles? (as far as their texts tell)"""
    L = [(p, lex(parent(p), w)) for p, w in case['tree'] if isinstance(w, str)]
    return any(p == t or p.startswith(t.rstrip('/') + '/') for _, t in L for p, _ in L)

def expect(fs, op, bad, o):
    """The result of op, applied to fs; bad: the faults during it. A list stands for a listing in any order, a set for alternatives."""
    k = op[0]
    pr = o.probe if o else lambda n: None
    fl = set(l.split(' ')[1] for l in bad)
    arg = op[1] if len(op) > 1 and op[1] is not None else './'
    p, err = fs.where(arg, k not in ('mkdir', 'rmdir', 'rm'))
    here = fs.n.get(p) if p else None
    if err == 40: pr('loop')
    if err == 13: pr('not-permitted')
    if p and fs.where(arg)[0] != lex(fs.cwd, arg): pr('through-link')
    if k in ('ls', 'rel'):
        if 'opendir' in fl: pr('reported-failure'); return '#nil'
        if 'readdir' in fl: pr('reported-failure'); return '(:exc :io-error)'
        if not here or here.t != 'd': pr('missing' if not here else 'not-a-dir'); return '#nil'
        if here.deny & READ: pr('not-permitted'); return '#nil'
        L = fs.kids(p)
        if k == 'rel' or not op[2]: L = [x for x in L if x[0] != '.']
        else: pr('hidden')
        if not L: pr('empty-dir'); return '#nil'
        if len(L) > 30: pr('big-dir')
        return [op[1] + '/' + x for x in L] if k == 'rel' else L
    if k == 'rec':
        cnt = [0, False]
        def walk(shown):
            q, e = fs.where(shown)
            if e == 13: cnt[1] = True
            if e or not fs.isdir(q): return []
            if fs.n[q].deny: cnt[1] = True
            r = []
            if fs.n[q].deny & READ: return []
            for x in fs.kids(q):
                if x[0] == '.': continue
                s = shown + '/' + x
                cnt[0] += 1
                if cnt[0] > 400: raise Err(0)
                t, e = fs.where(s)
                if t and fs.isdir(t): r += walk(s)
                else: r.append(s)
            return r
        try: L = walk(op[1])
        except Err: return SKIP          # links in circles
        if 'readdir' in fl: pr('reported-failure'); return '(:exc :io-error)'
        pr('recursive')
        if fl or cnt[1]: return ('part', L)
        return L or '#nil'
    if k == 'mkdir':
        if 'mkdir' in fl: pr('reported-failure'); return '#f'
        if not p or here: pr('exists' if p else 'missing'); return '#f'
        if not fs.mayChange(p): pr('not-permitted'); return '#f'
        fs.n[p] = N('d'); return '#t'
    if k == 'rmdir':
        if p and (p == ROOT or fs.cwd == p or (fs.cwd + '/').startswith(p.rstrip('/') + '/')): return SKIP
        if 'rmdir' in fl: pr('reported-failure'); return '#f'
        if not here or here.t != 'd' or not fs.empty(p): pr('not-empty' if here and here.t == 'd' else 'missing'); return '#f'
        if not fs.mayChange(p): pr('not-permitted'); return '#f'
        del fs.n[p]; pr('removed'); return '#t'
    if k == 'rm':
        if 'unlink' in fl: pr('reported-failure'); return '#nil'
        if not here or here.t == 'd': pr('missing'); return '#nil'
        if not fs.mayChange(p): pr('not-permitted'); return '#nil'
        if here.t == 'l': pr('link-removed')
        del fs.n[p]; pr('removed'); return ('string', lat(op[1]))
    if k == 'cd':
        if 'chdir' in fl: pr('reported-failure'); return '#f'
        if not here or here.t != 'd' or here.deny & SEARCH: pr('missing'); return '#f'
        fs.cwd = p; pr('cd'); return '#t'
    if k == 'cwd':
        if 'getcwd' in fl: pr('reported-failure'); return '#nil'
        if len(fs.cwd) >= 511: pr('long-cwd'); return {'#nil', ('string', lat(fs.cwd))}
        return ('string', lat(fs.cwd))
    if k == 'stat':
        if 'stat' in fl: pr('reported-failure'); return '(:error %s :string #nil)' % [l for l in bad if l.startswith('FAULT stat')][0].split(' ')[3]
        if not here: pr('missing'); return '(:error %d :string #nil)' % (err or 2)
        if here.t == 'd':
            if p == '/': return '(0 0 0 0 0 #f #t #f #f #f #nil)'
            return '(4096 %d %d 1000 2000 #f #t #f #f #f #nil)' % (here.mtime, here.mtime + 7)
        if here.t != 'f': pr('special')
        if here.uid > 65535 or here.gid > 65535: pr('owner')
        return '(%d %d %d %d %d %s #f %s %s %s #nil)' % (here.size, here.mtime, here.mtime + 7, here.uid, here.gid, *['#t' if here.t == x else '#f' for x in 'fcbp'])
    if k in ('file?', 'dir?'):
        if 'stat' in fl or not here: pr('missing'); return '#nil'
        return '#t' if here.t == ('d' if k == 'dir?' else 'f') else '#f'
    if k == 'put':
        if here and here.t not in 'df' or here and here.size > 1 << 20: return SKIP
        if not p or here and here.t == 'd': return '#f'
        if here and here.deny & WRITE or not here and not fs.mayChange(p): pr('not-permitted'); return '#f'
        if here: here.size = op[2]
        else: fs.n[p] = N('f', op[2])
        return '#t'
    raise Invalid()

def lex(cwd, p):
    L = [] if p[:1] == '/' else [x for x in cwd.split('/') if x]
    for x in p.split('/'):
        if x in ('', '.'): continue
        if x == '..': L = L[:-1]
        else: L.append(x)
    return '/' + '/'.join(L)

def scen(case):
    s = nj.steps([step(op, case.get('how', 0) * (i + 1)) for i, op in enumerate(case['ops'])], raw=True).add('loglevel 2').add('dirperm %d' % case['perm']).dir('/sim').dir(ROOT)
    for p, x in case['tree']:
        if x is None: s.dir(p)
        elif isinstance(x, str): s.add('link', nj.H(p), nj.H(x))
        else:
            s.file(p, b'q' * x[3])
            own = [y[1:] for y in case.get('own', []) if y[0] == p]
            s.add('meta', nj.H(p), x[1], x[0], x[2], *(own[0] if own else []))
    for p, d in case.get('deny', []): s.add('deny', nj.H(p), d)
    return s

def judge(case, r, o, what):
    fs = FS(case)
    res = nj.results(r)
    ev = {}
    for s, l, d in nj.timeline(r):
        if l.startswith('FAULT'): ev.setdefault(s, []).append(l)
    for i, op in enumerate(case['ops']):
        v = res.get(i)
        w = '%sstep %d %s in %s: ' % (what, i, step(op)[:200], fs.cwd[:100])
        if v is None: return w + 'gave no result'
        x = expect(fs, op, ev.get(i, []), o)
        if x is SKIP: return None       # the current directory is about to vanish, or a special file to be written
        if isinstance(x, tuple) and x[0] == 'part':
            if v in ('#nil', '(:exc :io-error)'): continue
            if not isinstance(v, tuple) or v[0] != 'string': return w + 'gave %s' % (v,)
            L = v[1].decode('latin-1').split('\n')
            if len(set(L)) != len(L): return w + 'lists an entry twice: %r' % L[:20]
            for y in L:
                if not fs.at(y, False) and fs.where(y, False)[1] != 13 or not y.startswith(op[1] + '/'): return w + 'lists %r, which is not there' % y
            continue
        if isinstance(x, list):
            if not isinstance(v, tuple) or v[0] != 'string': return w + 'gave %s instead of %r' % (v, x[:20])
            L = v[1].decode('latin-1').split('\n')
            if sorted(L) != sorted(x): return w + 'lists %r, there is %r' % (sorted(L)[:30], sorted(x)[:30])
            continue
        if v not in x if isinstance(x, set) else v != x: return w + 'gave %s instead of %s' % (v, x)
    have = {p: len(b) for p, b in r.files().items() if p.startswith(ROOT)}
    links = {l[2:].rpartition(' ')[0] for l in r.vfs.split('\n') if l.startswith('l ')}
    for p in links:
        if p.startswith(ROOT) and not (fs.isfile(p) and fs.n[p].t == 'l'): return '%safterwards there is a link %r' % (what, p)
    for p, n in have.items():
        if not fs.isfile(p) or fs.n[p].t == 'l': return '%safterwards there is a file %r' % (what, p)
    for p, f in fs.n.items():
        if not p.startswith(ROOT): continue
        if f.t == 'l':
            if p not in links: return '%safterwards the link %r is gone' % (what, p)
        elif f.t == 'd':
            if p not in r.dirs(): return '%safterwards the directory %r is gone' % (what, p)
        elif p not in have: return '%safterwards the file %r is gone' % (what, p)
    for p in r.dirs():
        if p.startswith(ROOT) and not fs.isdir(p): return '%safterwards there is a directory %r' % (what, p)
    x = nj.exitline(r)
    if x.get('dirs') != '0': return '%s%s directories are still open at the end' % (what, x.get('dirs'))

def execute(case, env, o):
    if not case['ops']: raise Invalid()
    fs = FS(case)
    for op in case['ops']:
        if len(op) > 1 and op[1] == '': raise Invalid()
        if op[0] == 'put' and op[2] < 0: raise Invalid()
        if op[0] == 'rec' and circles(case): raise Invalid()
        if expect(fs, op, [], None) is SKIP: raise Invalid()
    w = env.world(case.get('asan', False))
    base = o.see(w.run(scen(case)))
    if always_bad(base, o): return
    if base.kind != 'exit' or base.status: o.violation('ending', 'ended by %s %s' % (base.kind, base.status)); return
    m = judge(case, base, o, 'without faults: ')
    if m: o.violation('model', m); return
    if any(op[0] in ('mkdir', 'rm', 'rmdir', 'put') for op in case['ops']): o.nontrivial = True
    n = nj.calls(base)
    for x in case['runs']:
        if any(f['err'] <= 0 for f in x['f']): raise Invalid()
        fl = nj.place([f for f in x['f'] if f['op'] != 'getcwd'], n)
        k = sum(op[0] == 'cwd' for op in case['ops'])     # those before belong to the start of the runtime
        fl += ['fault getcwd %d %d' % (n['getcwd'] - k + f['pos'] * k // 1000000, f['err']) for f in x['f'] if f['op'] == 'getcwd' and k]
        s = scen(case)
        for l in fl: s.add(l)
        if 'gc' in x:
            for l in gcsched.lines(x['gc'], 0, base.head['safepoints']): s.add(l)
        r = o.see(w.run(s))
        what = 'with %s: ' % fl
        if always_bad(r, o, what): return
        if r.kind != 'exit' or r.status: o.violation('ending', '%sended by %s %s' % (what, r.kind, r.status)); return
        if r.head['faults']: o.nontrivial = True
        m = judge(case, r, o, what)
        if m: o.violation('model', m); return
    o.key = repr((case['tree'], case['ops'], case['runs']))

def shrink(case):
    for k in range(len(case['runs'])):
        q = case['runs'][k]
        yield dict(case, runs=case['runs'][:k] + case['runs'][k+1:])
        for j in range(len(q['f'])):
            if len(q['f']) > 1: yield dict(case, runs=case['runs'][:k] + [dict(q, f=q['f'][:j] + q['f'][j+1:])] + case['runs'][k+1:])
        if 'gc' in q: yield dict(case, runs=case['runs'][:k] + [{'f': q['f']}] + case['runs'][k+1:])
    n = len(case['ops'])
    for a in (n // 2, n // 4, 1):
        if a:
            for k in range(0, n, a): yield dict(case, ops=case['ops'][:k] + case['ops'][k+a:])
    n = len(case['tree'])
    for a in (n, n // 2, 1):
        if a:
            for k in range(0, n, a): yield dict(case, tree=case['tree'][:k] + case['tree'][k+a:])
    for k in ('deny', 'own'):
        for j in range(len(case.get(k, []))): yield dict(case, **{k: case[k][:j] + case[k][j+1:]})
    if case['perm']: yield dict(case, perm=0)
    if case.get('asan'): yield dict(case, asan=False)
