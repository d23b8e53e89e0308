from Xlib import X, Xatom, error
from fakecmds import Cmds

ROOT = 2


class R:
    def __init__(self, **k):
        self.__dict__.update(k)


class Window:
    def __init__(self, d, id):
        self.display, self.id = d, id

    def __eq__(self, o):
        return isinstance(o, Window) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.id

    def w(self):
        # a reply brings along the events before it
        self.display.c.slurp()
        if self.id not in self.display.wins:
            raise error.BadWindow(self.id)
        return self.display.wins[self.id]

    def change_attributes(self, event_mask=0, **k):
        pass

    def get_wm_class(self):
        c = self.w().get('class')
        return tuple(c) if c else None

    def query_tree(self):
        p = self.w()['parent']
        return R(root=self.display.root(), parent=Window(self.display, p) if p else X.NONE, children=[Window(self.display, i) for i, x in self.display.wins.items() if x['parent'] == self.id])

    def get_full_property(self, atom, type, sizehint=10):
        w = self.w()
        n = {v: k for k, v in self.display.atoms.items()}.get(atom)
        if n in ('_NET_WM_NAME', 'WM_NAME'):
            v = w.get(n)
            return None if v is None else R(value=bytes.fromhex(v), format=8, property_type=self.display.intern_atom('UTF8_STRING') if n[0] == '_' else Xatom.STRING)
        if n in ('_NET_WM_STATE', '_NET_WM_WINDOW_TYPE'):
            v = w.get(n)
            return None if v is None else R(value=[self.display.intern_atom(x) for x in v], format=32, property_type=Xatom.ATOM)
        if n == '_NET_ACTIVE_WINDOW' and self.id == ROOT:
            return R(value=[self.display.focus], format=32, property_type=Xatom.WINDOW)
        return None

    def get_property(self, atom, type, offset=0, length=0, delete=0):
        return self.get_full_property(atom, type)

    def get_wm_name(self):
        v = self.w().get('WM_NAME')
        return None if v is None else bytes.fromhex(v).decode('latin1')


class Display:
    def __init__(self, name=None):
        self.c = Cmds()
        self.wins, self.focus = {ROOT: dict(parent=0)}, X.PointerRoot
        self.atoms = dict(PRIMARY=1, ATOM=4, STRING=31, WINDOW=33, WM_NAME=39, WM_CLASS=67)

    def root(self):
        return Window(self, ROOT)

    def screen(self):
        return R(root=self.root(), root_depth=24)

    def intern_atom(self, n, only_if_exists=False):
        return self.atoms.setdefault(n, len(self.atoms) + 300)

    get_atom = intern_atom

    def create_resource_object(self, kind, id):
        return Window(self, id)

    def fileno(self):
        return self.c.fd

    def sync(self):
        self.c.slurp()

    flush = sync

    def pending_events(self):
        self.c.slurp()
        return len(self.c.q)

    def next_event(self):
        m = self.c.next()
        for i, w in m.get('wins', {}).items():
            self.wins[int(i)] = dict(self.wins.get(int(i), dict(parent=ROOT)), **w)
        for i in m.get('gone', []):
            self.wins.pop(i, None)
        self.focus = m.get('focus', self.focus)
        return R(type=X.PropertyNotify, window=self.root(), atom=self.intern_atom('_NET_ACTIVE_WINDOW'))

    def get_input_focus(self):
        self.c.slurp()
        return R(focus=self.focus if self.focus in (0, 1) else Window(self, self.focus), revert_to=0)
