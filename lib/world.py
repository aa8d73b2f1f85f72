"""Client of the simulator: builds it, talks to its fork server, parses runs."""
import json, os, resource, struct, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('SIM_BUILD') or os.path.join(ROOT, 'build')

def build():
    r = subprocess.run(['bash', os.path.join(ROOT, 'sim', 'build.sh'), BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode('latin-1')[-4000:])
        sys.stderr.write('build of the simulator failed\n')
        sys.exit(2)
    if r.stdout: sys.stderr.write(r.stdout.decode('latin-1'))

def H(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return b.hex() or '-'

class Scenario:
    """Everything that decides one run, as the text the simulator reads."""
    def __init__(self):
        self.lines = []
    def add(self, *w):
        self.lines.append(' '.join(str(x) for x in w))
        return self
    def args(self, *a):
        for x in a:
            self.add('arg', H(x))
        return self
    def file(self, path, data):
        return self.add('file', H(path), H(data))
    def dir(self, path):
        return self.add('dir', H(path))
    def stdin(self, t, data):
        return self.add('stdin', t, H(data))
    def text(self):
        return '\n'.join(self.lines) + '\n'

class Run:
    __slots__ = ('head', 'log', 'out', 'err', 'vfs', 'msg', 'kind', 'status', 'asan')
    def files(self):
        r = {}
        for l in self.vfs.split('\n'):
            if l.startswith('f '):
                p, _, d = l[2:].rpartition(' ')
                r[p] = bytes.fromhex(d)
        return r
    def dirs(self):
        return set(l[2:].rstrip(' ') for l in self.vfs.split('\n') if l.startswith('d '))
    def events(self):
        """Log lines, with the hex continuation lines folded into (line, bytes)."""
        cur = None
        for l in self.log.split('\n'):
            if l.startswith('+'):
                cur[1] += bytes.fromhex(l[1:])
            elif l:
                if cur: yield tuple(cur)
                cur = [l, b'']
        if cur: yield tuple(cur)

class SimDied(RuntimeError):
    pass

class BadScenario(Exception):
    """The simulator does not understand the scenario."""

class World:
    """One fork server."""
    def __init__(self, asan=False, cold=False):
        self.asan, self.cold = asan, cold
        self.errf = tempfile.TemporaryFile()
        env = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0',
               'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC'}
        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            except Exception:
                pass
        self.p = subprocess.Popen([os.path.join(BUILD, 'sim-asan' if asan else 'sim'),
                                   '--cold-server' if cold else '--server'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, preexec_fn=pre, close_fds=True)
        self.runs = 0
    def close(self):
        try:
            self.p.stdin.close(); self.p.stdout.close(); self.p.kill(); self.p.wait()
        except Exception:
            pass
        self.errf.close()
    def _read(self, n):
        b = self.p.stdout.read(n)
        if b is None or len(b) != n:
            self.errf.seek(0)
            raise SimDied('simulator died: ' + self.errf.read().decode('latin-1')[-2000:])
        return b
    def run(self, scenario):
        t = scenario.text().encode('latin-1') if isinstance(scenario, Scenario) else scenario.encode('latin-1')
        self.errf.seek(0); self.errf.truncate()
        try:
            self.p.stdin.write(struct.pack('<I', len(t)) + t)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        n = struct.unpack('<I', self._read(4))[0]
        head = json.loads(self._read(n))
        r = Run()
        r.head = head
        parts = [self._read(k) if k else b'' for k in head['lens']]
        r.log, r.out, r.err, r.vfs, r.msg = parts[0].decode('latin-1'), parts[1], parts[2], parts[3].decode('latin-1'), parts[4].decode('latin-1')
        self.runs += 1
        w = head['wait']
        r.asan = ''
        if head['done'] and w == 0:
            r.kind, r.status = head['why'], head['status']
        else:
            sig = w & 0x7f
            code = (w >> 8) & 0xff
            self.errf.seek(0)
            e = self.errf.read().decode('latin-1')
            r.asan = e[-6000:]
            r.status = code
            if sig == 24:
                # the processor-time limit: where exactly it struck does not repeat
                r.kind = 'hang'
                for k in head:
                    if k not in ('wait', 'done', 'status', 'why', 'lens'): head[k] = 'cpu-limit' if isinstance(head[k], str) else 0
                r.out = r.out[:0]; r.err = b''; r.vfs = ''; r.log = '\n'.join(l for l in r.log.split('\n') if l.startswith('FAULT'))
            elif sig:
                r.kind = 'signal%d' % sig
            elif code == 98:
                r.kind = 'asan'
            elif code == 71:
                raise BadScenario(e[-300:])
            else:
                r.kind = 'died%d' % code
        return r
