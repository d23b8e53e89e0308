import builtins, os

RUNNING, LOADED, OBJECTS, NAMES = [], {}, {}, set()


class DBusException(Exception):
    pass


class String(str):
    pass


_open = builtins.open


def there(p):
    return os.environ['FAKE_TMP'] + p if isinstance(p, str) and p.startswith('/tmp/') and not p.startswith(os.environ['FAKE_TMP']) else p


# whatever goes to /tmp stays in the scratch directory
builtins.open = lambda p, *a, **k: _open(there(p), *a, **k)
state = dict(stale=os.environ.get('FAKE_STALE') == '1', n=3)


class Proxy:
    def __init__(self, name, path):
        self.name, self.path = name, path

    def need(self, p):
        if self.name != 'org.kde.KWin' or self.path != p:
            raise DBusException('no such object')

    def unloadScript(self, f, **k):
        self.need('/Scripting')
        was, state['stale'] = state['stale'], False
        return was

    def loadScript(self, f, *a, **k):
        self.need('/Scripting')
        if state['stale'] or not os.path.exists(there(f)):
            return -1
        state['n'] += 1
        LOADED[state['n']] = there(f)
        return state['n']

    def run(self, **k):
        i = [i for i in LOADED if self.path == ('/Scripting/Script%d' if os.environ['KDE_SESSION_VERSION'] == '6' else '/%d') % i]
        if not i:
            raise DBusException('no such object ' + self.path)
        RUNNING.append(LOADED[i[0]])


class SessionBus:
    def get_object(self, name, path, *a, **k):
        return Proxy(name, path)

    def request_name(self, n, *a):
        NAMES.add(n)


def Interface(obj, dbus_interface=None):
    return obj


def deliver(svc, path, iface, meth, args):
    if svc not in NAMES or path not in OBJECTS:
        raise DBusException('no such service or object')
    f = getattr(OBJECTS[path], meth)
    if not hasattr(f, '_dbus_method') or (iface and iface != f._dbus_method):
        raise DBusException('no such method')
    f(*[String(a) if isinstance(a, str) else a for a in args])
