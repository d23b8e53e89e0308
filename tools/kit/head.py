import os, sys, tempfile, shutil, atexit
D = os.path.dirname(os.path.abspath(__file__))
T = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, T, True)
os.environ['KEYD_REPO'] = os.getcwd()
os.environ['KEYD_BUILD'] = T + '/build'
sys.path.insert(0, D + '/kit/lib')
sys.dont_write_bytecode = True
import build, sim, ipcutil, keytab
_srv = {}
bad = []


def run(scn, variant='asan', keepdir=None):
    if variant not in _srv:
        _srv[variant] = sim.Server(build.build(variant), T)
    return _srv[variant].run(scn, keepdir=keepdir)


def keys(r):
    """[(code, value)] written to the virtual devices"""
    return [(int(f[4]), int(f[5])) for f in r.lines if f[0] == 'O' and f[3] == '1']


def check(ok, what):
    if not ok:
        bad.append(what)
        print('WRONG:', what)


def finish():
    for s in _srv.values():
        s.stop()
    sys.exit(1 if bad else 0)


