"""Random configs and typing histories."""
import re
import spec

C = spec.NAMES
LET = list('abcdefghijklmnopqrstuvwxyz')
POOL = LET + list('1234567890') + ['esc', 'tab', 'enter', 'space', 'backspace', 'f1', 'f13', 'up', 'down', 'left', 'right', 'home', 'delete',
                                  'minus', 'equal', 'semicolon', 'comma', 'dot', 'slash', 'grave', 'kp5', 'pause', 'volumeup', 'menu']
MODK = ['leftshift', 'leftcontrol', 'leftmeta', 'leftalt', 'rightalt', 'rightshift', 'rightcontrol', 'rightmeta', 'capslock']


class Typist:
    """Well-formed random typing: every press is followed by one release, at chosen times."""

    def __init__(self, rng, t=100000, dev=0):
        self.rng, self.t, self.dev = rng, t, dev
        self.held = []
        self.ev = []

    def wait(self, us):
        self.t += us
        return self

    def press(self, k, dev=None):
        c = C[k] if isinstance(k, str) else k
        self.ev.append([self.t, self.dev if dev is None else dev, c, 1])
        self.held.append((c, self.dev if dev is None else dev))
        return self

    def release(self, k, dev=None):
        c = C[k] if isinstance(k, str) else k
        d = self.dev if dev is None else dev
        self.ev.append([self.t, d, c, 0])
        if (c, d) in self.held:
            self.held.remove((c, d))
        return self

    def tap(self, k, hold=1000, dev=None):
        self.press(k, dev)
        self.t += hold
        return self.release(k, dev)

    def random(self, keys, n, delay, maxheld=6, devs=None, prel=0.5, tap=0.25):
        """n steps of random presses and releases over keys; delay() gives microseconds between events"""
        r = self.rng
        devs = devs or (self.dev,)
        for _ in range(n):
            self.t += delay()
            x = r.random()
            up = [k for k in keys if (k, self.dev) not in self.held]
            if self.held and (x < prel or not up or len(self.held) >= maxheld):
                c, d = self.held[0] if r.random() < 0.3 else r.choice(self.held)
                self.release(c, d)
            else:
                d = r.choice(devs)
                free = [k for k in keys if ((C[k] if isinstance(k, str) else k), d) not in self.held]
                if not free:
                    continue
                k = r.choice(free)
                self.press(k, d)
                if r.random() < tap:
                    self.t += delay() // 2
                    self.release(k, d)
        return self

    def release_all(self, delay=lambda: 1000):
        while self.held:
            self.t += delay()
            c, d = self.rng.choice(self.held)
            self.release(c, d)
        return self


def delays(rng, timeouts, fine=True):
    """delay generator concentrated around the given timeouts (ms)"""
    T = [t for t in timeouts if t > 0] or [200]

    def f():
        x = rng.random()
        if x < 0.15:
            return 0
        if x < 0.45:
            return rng.randrange(1, 30) * 1000
        if x < 0.6:
            return rng.randrange(0, 5000)
        t = rng.choice(T)
        if x < 0.85:
            return max(0, t * 1000 + rng.choice([-2000, -1000, -1, 0, 1, 500, 1000, 2000]))
        if x < 0.95:
            return t * rng.randrange(0, 2000)
        return rng.randrange(0, 3) * 1000000
    return f


# ---------------------------------------------------------------- random configs
SYM = ['a', 'b', 'c', 'd', 'x', 'y', 'z', '1', '2', 'f5', 'f13', 'esc', 'enter', 'tab', 'left', 'right', 'home', 'grave', 'kp5', 'delete', 'minus']
MODSTR = ['C', 'S', 'A', 'M', 'G', 'C-S', 'A-S', 'M-C', 'C-A', 'G-S', 'C-S-A-M']
# every key with a name that can be written anywhere
ANYKEY = [n for n, c in sorted(C.items()) if n.isalnum() and len(n) > 1 and spec.NAME.get(c) == n and c not in spec.MODSET and n != 'noop']
UNICH = list('äßéΩ→€ñ😀')
SIMPLE = {'key': 6, 'modkey': 3, 'noop': 0.3, 'macro': 1}
ALLW = {'key': 5, 'modkey': 3, 'noop': 0.3, 'macro': 1.5, 'macro2': 0.7, 'layer': 3, 'layerm': 1, 'overload': 2, 'overloadt': 1.5, 'overloadt2': 1.5,
        'overloadi': 1, 'lettermod': 1, 'timeout': 1.2, 'oneshot': 2, 'oneshotm': 1, 'toggle': 1.5, 'togglem': 0.7, 'clear': 0.5, 'clearm': 0.3,
        'swap': 1, 'swapm': 0.7, 'setlayout': 0.7, 'command': 0.5}


def pick(rng, w):
    ks = list(w)
    return rng.choices(ks, [w[k] for k in ks])[0]


class Conf:
    """w: weights of actions; keys: physical keys to bind"""

    def __init__(self, rng, keys, w=None, nlayers=None, nlayouts=None, composites=0.3, chords=0.0, tmo=None, glob=None, pmain=0.75, player=0.45,
                 moded=0.5, depth=1, out=None, ids='*', name=None):
        self.rng, self.keys, self.w = rng, keys, dict(w or ALLW)
        r = rng
        self.depth = depth
        self.out = out or SYM
        self.tmos = set()
        self.tmo = tmo or [10, 30, 50, 100, 200]
        self.layers = ['l%d' % i for i in range(1, 1 + (r.randrange(1, 5) if nlayers is None else nlayers))]
        self.layouts = ['lay%d' % i for i in range(1, 1 + (r.choice([0, 0, 1, 2]) if nlayouts is None else nlayouts))]
        if name:
            self.layers, self.layouts = [name(l) for l in self.layers], [name(l) for l in self.layouts]
        self.mods = {l: (r.choice(MODSTR) if r.random() < moded else '') for l in self.layers}
        self.targets = self.layers + (['shift', 'control', 'alt', 'meta', 'altgr'] if r.random() < 0.5 else [])
        self.comps = []
        while r.random() < composites and len(self.comps) < 3:
            pool = self.layers + ['shift', 'control']
            c = '+'.join(r.sample(pool, min(len(pool), r.choice([2, 2, 3]))))
            if c not in self.comps and len(c) <= 64:
                self.comps.append(c)
        if r.random() < 0.3:
            self.targets = self.targets + self.comps
        self.glob = dict(glob or {})
        self.sec = []
        body = {l: [] for l in ['main'] + self.layers + self.layouts}
        for k in keys:
            if r.random() < pmain:
                body['main'].append((k, self.action()))
        for l in self.layers:
            for k in keys:
                if r.random() < player:
                    body[l].append((k, self.action(layer=l)))
        for l in self.layouts:
            for k in keys:
                if r.random() < player:
                    body[l].append((k, self.action(simple=r.random() < 0.8)))
        for c in self.comps:
            body[c] = [(k, self.action(layer=c)) for k in keys if r.random() < 0.5]
        self.chordkeys = []
        if chords:
            for l in ['main'] + self.layers[:2]:
                while r.random() < chords and len(self.chordkeys) < 6:
                    n = min(len(keys), r.choice([2, 2, 2, 3, 3, 4]))
                    ks = r.sample(keys, n)
                    self.chordkeys.append((l, ks))
                    body[l].append(('+'.join(ks), self.action()))
        for l in ('shift', 'control'):
            if r.random() < 0.25:
                body[l] = [(k, self.action()) for k in keys if r.random() < 0.3]
        self.body = body
        self.ids = ids

    def rename(self, a, b):
        """give a layer which is in no composite another name"""
        if any(a in c.split('+') for c in self.comps) or b in self.layers:
            return
        sub = lambda v: re.sub(r'\b%s\b' % re.escape(a), b, v)
        self.layers = [b if l == a else l for l in self.layers]
        self.targets = [b if l == a else l for l in self.targets]
        self.mods[b] = self.mods.pop(a)
        self.body = {(b if l == a else l): [(k, sub(v)) for k, v in e] for l, e in self.body.items()}

    def t(self):
        v = self.rng.choice(self.tmo)
        self.tmos.add(v)
        return v

    def sym(self):
        return self.rng.choice(self.out)

    def modkey(self):
        return self.rng.choice(MODSTR) + '-' + self.sym()

    def macro(self, full=True):
        r = self.rng
        x = r.random()
        if x < 0.25:
            return self.sym() if r.random() < 0.6 else self.modkey()
        toks = []
        for _ in range(r.randrange(1, 6)):
            y = r.random()
            if y < 0.4:
                toks.append(self.sym())
            elif y < 0.6:
                toks.append(self.modkey())
            elif y < 0.7:
                toks.append('%dms' % r.choice([1, 5, 20]))
            elif y < 0.85:
                g = [self.sym() for _ in range(r.randrange(2, 4) if r.random() < 0.93 else r.randrange(4, 20))]
                if r.random() < 0.5:
                    g[0] = r.choice(['leftcontrol', 'leftshift', 'leftalt', 'leftmeta'])
                if r.random() < 0.3:
                    g.insert(r.randrange(1, len(g) + 1), '%dms' % r.choice([1, 7, 30, 100]))
                toks.append('+'.join(g))
            elif y < 0.95:
                toks.append(r.choice(['hi', 'Foo', 'a!B', '3x', 'Hello,']) if r.random() < 0.5 else
                            r.choice('abXY19') + ''.join(r.choice('abcXYZ0189!@#$%^&*_{}:"|<>?~,./;\'[]`') for _ in range(r.randrange(1, 4))))
            else:
                toks.append(r.choice(UNICH))
        return 'macro(%s)' % ' '.join(toks)

    def target(self, layer=None):
        return self.rng.choice(self.targets)

    def action(self, layer=None, simple=False, depth=None):
        r = self.rng
        depth = self.depth if depth is None else depth
        op = pick(r, SIMPLE if simple else self.w)
        sub = lambda: self.action(simple=depth <= 0 or r.random() < 0.6, depth=depth - 1)
        T = lambda: self.target(layer)
        if op == 'key':
            return self.sym()
        if op == 'modkey':
            return self.modkey()
        if op == 'noop':
            return 'noop'
        if op == 'macro':
            return self.macro()
        if op == 'macro2':
            return 'macro2(%d, %d, %s)' % (self.t(), max(5, self.t()), self.macro())
        if op in ('layer', 'oneshot', 'toggle', 'swap'):
            return '%s(%s)' % (op, T())
        if op in ('layerm', 'oneshotm', 'togglem', 'swapm'):
            return '%s(%s, %s)' % (op, T(), self.macro())
        if op == 'overload':
            return 'overload(%s, %s)' % (T(), sub())
        if op in ('overloadt', 'overloadt2'):
            return '%s(%s, %s, %d)' % (op, T(), sub(), self.t())
        if op == 'overloadi':
            return 'overloadi(%s, %s, %d)' % (sub(), sub(), self.t())
        if op == 'lettermod':
            return 'lettermod(%s, %s, %d, %d)' % (T(), self.sym(), self.t(), self.t())
        if op == 'timeout':
            return 'timeout(%s, %d, %s)' % (sub(), self.t(), sub())
        if op == 'clear':
            return 'clear()'
        if op == 'clearm':
            return 'clearm(%s)' % self.macro()
        if op == 'setlayout':
            return 'setlayout(%s)' % r.choice(self.layouts + ['main'])
        if op == 'command':
            return 'command(echo %s)' % r.choice('abcdef')
        if op in ('scroll', 'scrollt'):
            return '%s(%d)' % (op, r.choice([1, 2, 3, 5, -2, 10]))
        raise ValueError(op)

    def text(self):
        L = ['[ids]', self.ids]
        if self.glob:
            L += ['[global]'] + ['%s = %s' % kv for kv in self.glob.items()]
        order = ['main'] + self.layers + self.layouts + [x for x in ('shift', 'control') if x in self.body] + self.comps
        for l in order:
            typ = ''
            if l in self.mods and self.mods[l]:
                typ = ':' + self.mods[l]
            elif l in self.layouts:
                typ = ':layout'
            L.append('[%s%s]' % (l, typ))
            L += ['%s = %s' % kv for kv in self.body[l]]
        return '\n'.join(L) + '\n'

    def timeouts(self):
        T = set(self.tmos)
        for k, v in self.glob.items():
            if k.endswith('timeout'):
                T.add(int(v))
        return sorted(T)


def rand_glob(rng, p=0.3):
    g = {}
    def opt(k, vs):
        if rng.random() < p:
            g[k] = rng.choice(vs)
    opt('macro_timeout', [5, 40, 300])
    opt('macro_repeat_timeout', [5, 20, 100])
    opt('macro_sequence_timeout', [0, 100, 3000])
    opt('chord_timeout', [5, 20, 100])
    opt('chord_hold_timeout', [0, 10, 60, 150])
    opt('oneshot_timeout', [10, 50, 400])
    opt('overload_tap_timeout', [5, 50, 200])
    opt('disable_modifier_guard', [0, 1])
    return g
