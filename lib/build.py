"""Builds the daemon from /repo's working tree against the simulated kernel."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KEYD_REPO', '/repo')
BUILD = os.environ.get('KEYD_BUILD') or os.path.join(VERIF, 'build')

WRAPS = '''open open64 openat read readv write writev close ioctl poll ppoll opendir scandir access
inotify_init inotify_init1 inotify_add_watch accept accept4 fork vfork wait waitpid nice setpriority
getgrnam setgid clock_gettime time gettimeofday usleep sleep nanosleep clock_nanosleep recv send
dprintf vdprintf listen execv execvp execve execl execlp execle system posix_spawn
posix_spawnp'''.split()

DEFS = ['-DVERSION="v0"', '-DCONFIG_DIR="etc/keyd"', '-DSOCKET_PATH="run/keyd.socket"',
        '-DDATA_DIR="share/keyd"', '-D_DEFAULT_SOURCE', '-std=c11', '-w', '-g', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-I/usr/local/include']

VARIANTS = {
    # name: (compiler, compile flags, sim flags, backend)
    'asan': ('gcc', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], [], 'uinput'),
    'plain': ('gcc', ['-O3'], [], 'uinput'),
    'tsan': ('gcc', ['-O1', '-fsanitize=thread'], ['-DSIM_NOLOCK'], 'uinput'),
    'msan': ('clang', ['-O1', '-fsanitize=memory', '-fno-omit-frame-pointer'], ['-fsanitize=memory'], 'uinput'),
    'cli': ('gcc', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], None, 'uinput'),
    'cliplain': ('gcc', ['-O1'], None, 'uinput'),
    'hid': ('gcc', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], [], 'usb-gadget'),
}


class BuildError(Exception):
    pass


def _sources():
    return sorted(glob.glob(REPO + '/src/*.c'))


def _hash(extra):
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(REPO + '/src')):
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            h.update(open(p, 'rb').read())
    h.update(open(VERIF + '/sim/sim.c', 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(variant):
    cc, cf, sf, backend = VARIANTS[variant]
    key = _hash((variant, REPO))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, variant + '-' + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(BUILD, variant + '-*')):
            if os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
            else:
                try:
                    os.unlink(old)
                except OSError:
                    pass
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        jobs = []
        srcs = _sources() + [REPO + '/src/vkbd/%s.c' % backend]
        main = [] if sf is None else ['-Dmain=keyd_main']
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + '.o')
            jobs.append((s, o, [cc] + DEFS + main + cf + ['-c', s, '-o', o]))
        if sf is not None:
            s = VERIF + '/sim/sim.c'
            o = os.path.join(tmp, 'sim.o')
            jobs.append((s, o, [cc, '-O1', '-g', '-w'] + sf + ['-c', s, '-o', o]))
        procs = [(j, subprocess.Popen(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for j in jobs]
        for j, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError('compile %s failed:\n%s' % (j[0], o.decode(errors='replace')))
        link = [cc] + [f for f in cf if f.startswith('-fsanitize')] + [j[1] for j in jobs]
        if sf is not None:
            link += ['-Wl,--wrap=' + w for w in WRAPS]
        link += ['-lpthread', '-o', tmp + '/out']
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError('link failed:\n' + r.stdout.decode(errors='replace'))
        os.rename(tmp + '/out', out)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    for v in sys.argv[1:] or ['asan']:
        print(build(v))
