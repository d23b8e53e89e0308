"""Scenarios for the simulated kernel, the fork servers that run them and their logs."""
import os, re, shutil, signal, struct, subprocess, tempfile, time

SAN_RE = re.compile(r'runtime error:|AddressSanitizer|ThreadSanitizer|MemorySanitizer|LeakSanitizer|Assertion .* failed|'
                    r'\*\*\* stack smashing|\*\*\* buffer overflow|double free|free\(\): ')

KBD_KEYS = '1-248'
MOUSE_KEYS = '272-279'


def payload(b):
    """comma separated hex; long zero runs as ~N"""
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    if not b:
        return '-'
    out, i, last = [], 0, 0
    for m in re.finditer(rb'\0{64,}', b):
        if m.start() > last:
            out.append(b[last:m.start()].hex())
        out.append('~%d' % (m.end() - m.start()))
        last = m.end()
    if last < len(b):
        out.append(b[last:].hex())
    return ','.join(out)


class Scn:
    def __init__(self):
        self.pre = []      # header lines
        self.items = []    # (t_us, seq, line)
        self.meta = {}
        self._seq = 0

    def file(self, path, data):
        self.pre.append('FILE %s %s' % (path, payload(data)))
        return self

    def conf(self, text, name='default.conf'):
        return self.file('etc/keyd/' + name, text)

    def dev(self, i, node=None, vendor=1, product=1, name='kbd', present=1, fail=0, key=KBD_KEYS, rel='', abs='', ax=None, held=None):
        l = 'DEV %d %s %x %x %s %d %d' % (i, node or 'event%d' % i, vendor, product, payload(name), present, fail)
        if key:
            l += ' key=' + key
        if rel:
            l += ' rel=' + rel
        if abs:
            l += ' abs=' + abs
        if ax:
            l += ' ax=%d,%d,%d,%d' % ax
        if held:
            l += ' held=' + held
        self.pre.append(l)
        return self

    def mouse(self, i, **kw):
        kw.setdefault('name', 'mouse')
        kw.setdefault('key', MOUSE_KEYS)
        kw.setdefault('rel', '0,1,6,8')
        return self.dev(i, **kw)

    def opt(self, k, v):
        self.pre.append('OPT %s %s' % (k, v))
        return self

    def env(self, k, v):
        self.pre.append('ENV %s=%s' % (k, v))
        return self

    def arg(self, a):
        self.pre.append('ARG ' + payload(a))
        return self

    def raw(self, l):
        self.pre.append(l)
        return self

    def at(self, t_us, line):
        self._seq += 1
        self.items.append((int(t_us), self._seq, line))
        return self

    def key(self, t_us, dev, code, val):
        return self.at(t_us, 'key %d %d %d' % (dev, code, val))

    def text(self, d):
        self.items.sort()
        L = ['DIR ' + d] + self.pre + ['@%d %s' % (t, l) for t, _, l in self.items]
        return '\n'.join(L) + '\n'


class Result:
    """Parsed log. ev is the list of split log lines."""

    def __init__(self, raw, d):
        head, _, body = raw.partition(b'\n')
        f = head.split()
        self.exit, self.sig, self.wall, self.ovf = int(f[1]), int(f[2]), int(f[3]), int(f[4])
        self.body = body.decode('utf-8', 'replace')
        self.lines = [l.split(' ') for l in self.body.split('\n') if l]
        self.dir = d
        self.ended = any(l[0] == 'END' for l in self.lines[-60:]) or '\nEND ' in self.body
        self.stop = next((l[1] for l in reversed(self.lines[-40:]) if l[0] == 'STOP'), None)
        self._err = self._out = None

    @property
    def stderr(self):
        if self._err is None:
            try:
                self._err = open(self.dir + '/stderr.txt', 'rb').read(400000).decode('utf-8', 'replace')
            except OSError:
                self._err = ''
        return self._err

    @property
    def stdout(self):
        if self._out is None:
            try:
                self._out = open(self.dir + '/stdout.txt', 'rb').read(4000000).decode('utf-8', 'replace')
            except OSError:
                self._out = ''
        return self._out

    def load(self):
        self.stderr, self.stdout
        return self

    def sanitizer(self):
        m = SAN_RE.search(self.stderr) or SAN_RE.search(self.stdout[-4000:])
        if m:
            s = self.stderr if SAN_RE.search(self.stderr) else self.stdout
            i = SAN_RE.search(s).start()
            return s[max(0, i - 120):i + 700]
        return None

    def inconclusive(self, panic=False):
        """panic: the check judges the panic sequence itself"""
        return self.wall or self.ovf or self.stop in ('TOOMANYFDS',) or (not panic and not self.ended and self.panicked())

    def panicked(self):
        """were escape, enter and backspace held together when the daemon read its last event?"""
        down, drain = {}, set()
        for f in self.lines:
            if f[0] == 'P':
                drain.clear()
            elif f[0] == 'G' and f[3] == '1':
                drain.add(f[2])
                down.pop(f[2], None)
            elif f[0] == 'GONE':
                down.pop(f[2], None)
            elif f[0] == 'I' and f[3] == '1' and f[2] not in drain and f[5] in ('0', '1') and f[4] in ('1', '14', '28'):
                (set.add if f[5] == '1' else set.discard)(down.setdefault(f[2], set()), f[4])
        return len(set().union(*down.values())) == 3

    def died(self):
        """None if the daemon stayed alive until the end, else why not."""
        s = self.sanitizer()
        if s:
            return 'memory error, undefined behaviour or failed assertion: ' + s
        if self.stop == 'LIVELOCK':
            return 'the daemon spins without making progress'
        if self.stop in ('BLOCKED', 'EOFLOOP'):
            return 'the daemon blocks on a client for ever (%s)' % self.stop
        if self.stop == 'NEUTRALWAIT':
            return None
        if self.stop == 'NOEXIT':
            return 'the daemon did not exit on SIGTERM'
        if self.sig in (signal.SIGXCPU, signal.SIGKILL) and not self.wall:
            return 'the daemon hung (CPU time exhausted)'
        if self.sig and not (self.ended and self.sig == signal.SIGTERM):
            return 'the daemon was killed by signal %d' % self.sig
        if not self.ended:
            return 'the daemon exited by itself (status %d): %s' % (self.exit, (self.stderr + self.stdout)[-300:])
        if self.exit not in (0, 15, 143, -1):
            return 'the daemon failed while shutting down (status %d): %s' % (self.exit, self.stderr[-300:])
        for f in self.lines[-1:-400:-1]:
            if f[0] == 'UNPOLLED':
                return 'the daemon has stopped listening to device %s (%s events unread)' % (f[1], f[2])
        return None


class Server:
    def __init__(self, binary, scratch):
        self.binary, self.scratch, self.n = binary, scratch, 0
        self.p = None

    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
               'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:symbolize=1',
               'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
               'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0'}
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, close_fds=True)

    def _rd(self, n):
        b = b''
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise RuntimeError('fork server died')
            b += c
        return b

    def send(self, scn, keepdir=None):
        if self.p is None:
            self.start()
        self.n += 1
        self.d = keepdir or os.path.join(self.scratch, 's%d' % self.n)
        os.makedirs(self.d, exist_ok=True)
        t = scn.text(self.d).encode('utf-8', 'surrogateescape') if isinstance(scn, Scn) else scn(self.d)
        self.p.stdin.write(struct.pack('<I', len(t)) + t)
        self.p.stdin.flush()

    def recv(self):
        n, = struct.unpack('<I', self._rd(4))
        return Result(self._rd(n), self.d)

    def run(self, scn, keepdir=None, keep=False):
        self.send(scn, keepdir)
        r = self.recv()
        r.load()
        if not keep and not keepdir:
            shutil.rmtree(self.d, ignore_errors=True)
        return r

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


def scratch_dir():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='keydv-', dir=base)
