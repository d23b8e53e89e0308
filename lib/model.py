"""Drives the executable specification with the events a run of the daemon actually read, and compares outputs."""
from spec import *

BTN = {249: 272, 250: 274, 251: 273, 252: 275, 253: 276, 178: 278, 255: 277}
SPECIAL_OUT = {177: 372, 222: 582, 254: 464}

# kernel codes above 255 that keyd documents as further names for a key
_F = dict(zip(['f%d' % i for i in range(13, 25)], range(183, 195)))
HIGH = {}
for i in range(12):
    HIGH[0x1d2 + i] = 183 + i           # KEY_FN_F1..F12
for k, f in {0x1bc: 'f21', 0x1bd: 'f22', 0x1be: 'f23', 0x1e5: 'f13', 0x176: 'f14', 0x232: 'f15', 0x27a: 'f16', 0x214: 'f17',
             0x213: 'f18', 0x168: 'f19', 0x1a6: 'f13', 0x1a7: 'f14', 0x1a8: 'f15', 0x1a9: 'f16', 0x1aa: 'f17', 0x1ab: 'f18',
             0x1ac: 'f19', 0x1ad: 'f20', 0x1ae: 'f21', 0x117: 'f18'}.items():
    HIGH[k] = _F[f]
for i in range(10):
    HIGH[0x100 + i] = 183 + i           # BTN_0..BTN_9
HIGH.update({0x1d0: 254, 0x174: 177, 0x246: 222, 272: 249, 274: 250, 273: 251, 275: 252, 276: 253, 278: 178, 277: 255})


LOW = {148: 191, 149: 192, 202: 193, 203: 194}      # KEY_PROG1-4: their codes stand for the wheel

for i in range(0x140, 0x150):
    HIGH[i] = EXTMOUSE


class Sink:
    def __init__(self):
        self.outs = []      # (us, device, type, code, value)
        self.layers = []    # (us, keyboard, layer index, on)
        self.cmds = []      # (us, command)
        self.now = 0
        self.vdown = set()  # keys down on the virtual devices

    def key(self, code, val):
        (self.vdown.add if val else self.vdown.discard)(code)
        if code in (S_DOWN, S_UP, S_LEFT, S_RIGHT):
            if val:
                if code in (S_DOWN, S_UP):
                    self.outs.append((self.now, 1, 2, 8, 1 if code == S_UP else -1))
                else:
                    self.outs.append((self.now, 1, 2, 6, 1 if code == S_RIGHT else -1))
            return
        self.vkey(code, val)

    def vkey(self, code, val):
        if code in BTN:
            self.now += 1000
            self.outs.append((self.now, 1, 1, BTN[code], val))
        else:
            self.outs.append((self.now, 0, 1, SPECIAL_OUT.get(code, code), val))

    def rel(self, code, v):
        v = (v + 2**31) % 2**32 - 2**31
        if v:
            self.outs.append((self.now, 1, 2, code, v))

    def pause(self, us):
        self.now += us

    def layer(self, kbd, idx, on):
        self.layers.append((self.now, kbd, idx, on))

    def command(self, c):
        self.cmds.append((self.now, c))


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Model:
    """devmap: device index -> position of its config, 'ext' (uncaptured pointer) or None"""

    def __init__(self, configs, devmap, ipc=None, reloads=None, absax=None, orders=None, pointers=()):
        self.sink = Sink()
        self.kbds = [Keyboard(c, self.sink) for c in configs]
        # the order in which keyboards whose timeouts coincide are served is not defined
        self.orders = [list(o) for o in orders] if orders else None
        self.order = self.orders.pop(0) if self.orders else range(len(self.kbds))
        self.pending_reload = None
        self.grabbed = set()
        self.pointers = set(pointers)
        self.lights = []       # (log position of a poll, is a layer active per keyboard)
        self.snapshots = []    # (client, us, lines, position in sink.layers)
        self.devmap = devmap
        self.ipc = ipc or {}
        self.reloads = list(reloads or [])
        self.active = None
        self.absax = absax or {}
        self.late = False
        self.missed = []       # timeouts the daemon slept through
        self.ts = 0
        self.dev_down = {}
        self.panic = {}
        self.nev = 0
        self.replies = []

    def start(self, us):
        self.ts = us // 1000

    def feed(self, k, code, on):
        self.kbds[k].feed(code, on, self.ts)

    def run(self, lines, start_us=0, slack_ms=5):
        s = self.sink
        base = start_us
        draining = set()    # devices captured since the last poll: what they had queued is discarded
        for pos, f in enumerate(lines):
            w = f[0]
            if self.pending_reload is not None and w in ('CR', 'CZ') and int(f[2]) == self.pending_reload:
                s.now = int(f[1])
                self.reload()
            if w == 'P':
                self.lights.append((pos, [any(st.active and l.kind != 'layout' for l, st in list(zip(kb.config.layers, kb.st))[1:]) for kb in self.kbds]))
                draining.clear()
                t0, t1 = int(f[1]), int(f[3])
                self.ts = (base + t1) // 1000
                s.now = t1
                for kb in [self.kbds[k] for k in self.order]:
                    if kb.deadline is not None and kb.deadline <= self.ts:
                        if not self.late and self.ts > max(kb.deadline, (base + t0) // 1000) + slack_ms:
                            self.missed.append((kb.deadline, self.ts))
                        kb.tick(self.ts)
                self.late = False
            elif w == 'LATE':
                self.late = True
            elif w == 'I':
                if int(f[2]) in draining or (int(f[2]) in self.grabbed and f[6] == '0'):
                    # others have already seen it
                    continue
                s.now = int(f[1])
                self.input(int(f[2]), int(f[3]), int(f[4]), int(f[5]))
            elif w == 'G' and f[3] == '0':
                self.grabbed.discard(int(f[2]))
            elif w == 'G' and f[3] == '1':
                self.grabbed.add(int(f[2]))
                draining.add(int(f[2]))
                self.dev_down.pop(int(f[2]), None)
            elif w == 'CA':
                s.now = int(f[1])
                self.request(int(f[2]))
            elif w == 'GONE':
                s.now = int(f[1])
                self.removed(int(f[2]))
        return self

    def removed(self, dev):
        """a vanished device no longer holds anything"""
        k = self.devmap.get(dev)
        held = sorted(self.dev_down.pop(dev, ()))
        if isinstance(k, int):
            for c in held:
                self.feed(k, c, 0)

    def input(self, dev, typ, code, val):
        k = self.devmap.get(dev)
        if isinstance(k, int) and dev not in self.grabbed:
            # the capture failed
            k = 'ext' if dev in self.pointers else None
        if k is None:
            return
        if typ == 1:
            if val == 2:
                return
            code = LOW.get(code, code)
            if code >= 256:
                code = HIGH.get(code)
                if code is None:
                    return
        if k == 'ext':
            if (typ == 1 or (typ == 2 and code in (6, 8))) and self.active is not None:
                self.click(self.active)
            return
        kb = self.kbds[k]
        if typ == 1:
            self.active = k
            d = self.dev_down.setdefault(dev, set())
            (d.add if val else d.discard)(code)
            self.nev += 1
            self.feed(k, code, val)
        elif typ == 2 and code in (0, 1):
            self.active = k
            if kb.scroll_active:
                n = kb.scroll_sens
                if n:
                    # distance not yet turned into steps is kept for both axes
                    for ax, attr in ((1, 'scroll_y'), (0, 'scroll_x')):
                        v = getattr(kb, attr) + (val if code == ax else 0)
                        k = trunc_div(v, n)
                        setattr(kb, attr, v - k * n)
                        self.sink.rel(8, -k if ax else k)
            else:
                self.sink.rel(code, val)
        elif typ == 2 and code in (6, 8):
            self.active = k
            c = (S_RIGHT if val > 0 else S_LEFT) if code == 6 else (S_UP if val > 0 else S_DOWN)
            for _ in range(abs(val)):
                self.feed(k, c, 1)
                self.feed(k, c, 0)
        elif typ == 3 and code in (0, 1):
            self.active = k
            ax = self.absax.get(dev)
            if ax:
                lo, hi = ax[2 * code], ax[2 * code + 1]
                v = (min(max(val, lo), hi) - lo) * 1024 // (hi - lo) if hi > lo else -1
                if v >= 0:
                    self.sink.outs.append((self.sink.now, 1, 3, code, v))

    def click(self, k):
        self.feed(k, EXTMOUSE, 1)
        self.feed(k, EXTMOUSE, 0)

    def request(self, cid):
        m = self.ipc.get(cid)
        if not m:
            return
        if m[0] == 'bind':
            ok = False
            for kb in self.kbds:
                ok |= kb.bind(m[1])
            self.replies.append((cid, ok))
        elif m[0] == 'do':
            s = m[1].rstrip('\n')
            try:
                run_macro(self.sink, macro_parse(s), m[2])
                self.replies.append((cid, True))
            except Bad:
                self.replies.append((cid, False))
        elif m[0] == 'input':
            self.replies.append((cid, self.type_text(m[1], m[2])))
        elif m[0] == 'reload':
            # devices which are newly captured are waited for; the rest happens then
            self.pending_reload = cid
            self.replies.append((cid, True))
        elif m[0] == 'listen':
            L = []
            if self.active is not None:
                kb = self.kbds[self.active]
                lay = kb.config.layers
                on = [l for l, st in zip(lay, kb.st) if st.active and l is not lay[0]]
                L = ['/' + next((l.name for l in on if l.kind == 'layout'), 'main')] + ['+' + l.name for l in on if l.kind != 'layout']
            self.snapshots.append((cid, self.sink.now, L, len(self.sink.layers)))

    def reload(self):
        self.pending_reload = None
        for c in sorted(self.sink.vdown):
            self.sink.vkey(c, 0)
        self.sink.vdown.clear()
        configs, self.devmap = self.reloads.pop(0)
        self.kbds = [Keyboard(c, self.sink) for c in configs]
        self.order = self.orders.pop(0) if self.orders else range(len(self.kbds))
        self.active = None

    def type_text(self, text, delay):
        s = self.sink
        for ch in text:
            ks = key_sequence(ch) if ord(ch) < 128 else None
            seq = None
            if ks:
                seq = [(c, 1) for c in ([SHIFT] if 'S' in ks[1] else [])] + [(ks[0], 1), (ks[0], 0)] + ([(SHIFT, 0)] if 'S' in ks[1] else [])
            elif ch in ' \n\t':
                c = {' ': 57, '\n': 28, '\t': 15}[ch]
                seq = [(c, 1), (c, 0)]
            else:
                i = unicode_index(ord(ch))
                if i is None:
                    return False
                seq = [x for c in unicode_codes(i) for x in ((c, 1), (c, 0))]
            for c, v in seq:
                s.vkey(c, v)
            s.pause(delay)
        return True


def outputs(lines):
    """what the daemon wrote to its virtual devices (no SYN, no zero motion); dropped: events the kernel would discard"""
    out, dropped = [], []
    for f in lines:
        if f[0] == 'O':
            ty = int(f[3])
            if ty == 0:
                continue
            v = int(f[5])
            if ty == 2 and v == 0:
                continue
            e = (int(f[1]), int(f[2]), ty, int(f[4]), v)
            out.append(e)
            if f[6] != '1':
                dropped.append(e)
    return out, dropped


def normalise(outs):
    """events other than modifiers, each with the modifiers held at that moment; bare taps of guarded modifiers are kept"""
    held, res, typed = {}, [], 0
    for t, ui, ty, code, val in outs:
        if ty == 1 and ui == 0 and code in MODSET:
            if val:
                if code not in held:
                    held[code] = typed
                    typed += 1 if code == CTRL else 0
            elif code in held:
                if held.pop(code) == typed and code in GUARDED:
                    res.append((t, 'tap', code, 0, frozenset()))
        else:
            typed += 1
            res.append((t, ui, ty, (code, val), frozenset(held)))
    return res, frozenset(held)


def same(exp, got, tol_us=5000):
    """None if the outputs agree, else a description"""
    if exp == got:
        return None
    (a, ea), (b, eb) = normalise(exp), normalise(got)
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x is None or y is None or x[1:] != y[1:] or abs(x[0] - y[0]) > tol_us:
            return 'output %d: expected %s, observed %s' % (i, fmt(x), fmt(y))
    if ea != eb:
        return 'modifiers left held: expected %s, observed %s' % (sorted(ea), sorted(eb))
    return None


def fmt(x):
    if x is None:
        return 'nothing'
    if x[1] == 'tap':
        return 't=%dus bare tap of %s' % (x[0], NAME.get(x[2], x[2]))
    c, v = x[3]
    n = NAME.get(c, c) if x[1] == 0 and x[2] == 1 else c
    return 't=%dus %s %s%s' % (x[0], '%s %s' % (n, 'down' if v else 'up') if x[2] == 1 else 'axis %s/%s %d' % (x[2], n, v),
                              'with ' if x[4] else '', '+'.join(NAME[m] for m in sorted(x[4])))
