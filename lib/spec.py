"""Executable specification of keyd: the config language and the remapping engine.

Times are in milliseconds inside the engine (as observed by the daemon when its poll
returns); outputs are stamped in microseconds because macros and clicks pause.
"""
import re
from keytab import KEYS

MOD = {'A': 4, 'G': 16, 'S': 2, 'M': 8, 'C': 1}
ALT, ALTGR, SHIFT, META, CTRL = 56, 100, 42, 125, 29
MODKEYS = [('A', ALT), ('G', ALTGR), ('S', SHIFT), ('M', META), ('C', CTRL)]  # order of application
MODSET = {ALT: 'A', ALTGR: 'G', SHIFT: 'S', META: 'M', CTRL: 'C'}
GUARDED = (ALT, ALTGR, META)
NOOP, EXTMOUSE, CHORD1, CHORDMAX = 195, 196, 197, 199
NCHORD = 3
S_DOWN, S_UP, S_LEFT, S_RIGHT = 148, 149, 202, 203
CACHE = 16
QUEUE = 32

NAME, NAMES, SHIFTED = {}, {}, {}
for _c, (_n, _a, _s) in KEYS.items():
    NAME[_c] = _n
for _c, (_n, _a, _s) in sorted(KEYS.items()):
    for _x in (_n, _a):
        if _x and _x not in NAMES:
            NAMES[_x] = _c
    if _s:
        SHIFTED[_s] = _c

UNI = None  # codepoint -> index, loaded on demand


def unicode_index(cp):
    global UNI
    if UNI is None:
        import unidata
        UNI = unidata.INDEX
    return UNI.get(cp)


B36 = [NAMES[c] for c in '0123456789abcdefghijklmnopqrstuvwxyz']


def unicode_codes(i):
    return [223, B36[i // 1296 % 36], B36[i // 36 % 36], B36[i % 36]]


class Bad(Exception):
    pass


def blen(s):
    return len(s.encode('utf-8', 'surrogateescape'))


def atoi(s):
    m = re.match(r'[ \t\n\v\f\r]*([+-]?\d+)', s)
    return int(m.group(1)) if m else 0


def key_sequence(s):
    """'C-S-a' -> (code, mods) or None"""
    if not s:
        return None
    mods = set()
    i = 0
    while i + 1 < len(s) and s[i + 1] == '-':
        if s[i] not in MOD:
            return None
        mods.add(s[i])
        i += 2
    c = s[i:]
    # the shifted and the plain name space do not overlap
    if c in SHIFTED:
        return SHIFTED[c], frozenset(mods | {'S'})
    if c in NAMES:
        return NAMES[c], frozenset(mods)
    return None


def modset(s):
    out = set()
    i = 0
    while i < len(s):
        if s[i] not in MOD:
            return None
        out.add(s[i])
        if i + 1 == len(s):
            return frozenset(out)
        if s[i + 1] != '-':
            return None
        i += 2
    return frozenset(out)


def is_timeval(s):
    return re.fullmatch(r'[0-9]+ms\n?', s) is not None


def escape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            if i + 1 >= len(s):
                break
            n = s[i + 1]
            out.append({'n': '\n', 't': '\t', '\\': '\\', ')': ')', '(': '('}.get(n, '\\' + n))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def macro_parse(s):
    """-> list of ('key', code, mods) ('hold', code) ('rel',) ('uni', idx) ('wait', ms)"""
    out = []
    for tok in [t for t in s.split(' ') if t]:
        ks = key_sequence(tok)
        if ks:
            out.append(('key',) + ks)
        elif '+' in tok:
            for k in [x for x in tok.split('+') if x]:
                if is_timeval(k):
                    out.append(('wait', atoi(k) & 0xffff))
                else:
                    ks = key_sequence(k)
                    if not ks:
                        raise Bad('invalid key %s' % k)
                    out.append(('hold', ks[0]))
            out.append(('rel',))
        elif is_timeval(tok):
            out.append(('wait', atoi(tok) & 0xffff))
        else:
            for ch in tok:
                if ord(ch) < 128:
                    for c in sorted(KEYS):
                        n, _, sh = KEYS[c]
                        if n == ch:
                            out.append(('key', c, frozenset()))
                            break
                        if sh == ch:
                            out.append(('key', c, frozenset('S')))
                            break
                else:
                    i = unicode_index(ord(ch))
                    if i is not None:
                        out.append(('uni', i))
    if len(out) > 256:
        raise Bad('macro too long')
    return out


def macro_expression(s):
    """None if not a macro expression"""
    if blen(s) >= 1024:
        return None
    if s.startswith('macro(') and s.endswith(')'):
        return macro_parse(escape(s[6:-1]))
    if key_sequence(s) is None and len(s) != 1:
        return None
    return macro_parse(s)


def parse_fn(s):
    i = s.find('(')
    if i < 0:
        return None
    name, args = s[:i], []
    i += 1
    while i < len(s) and s[i] == ' ':
        i += 1
    while True:
        start, lvl = i, 0
        while i < len(s):
            ch = s[i]
            if ch == '\\' and i + 1 < len(s):
                i += 2
                continue
            if ch == '(':
                lvl += 1
            elif ch == ')':
                lvl -= 1
                if lvl == -1:
                    break
            elif ch == ',' and lvl == 0:
                break
            i += 1
        if i >= len(s):
            return None
        if i > start:
            if len(args) >= 5:
                return None
            args.append(s[start:i])
        if s[i] == ')':
            return name, args
        i += 1
        while i < len(s) and s[i] == ' ':
            i += 1


ACTIONS = {
    'swap': ('swap', 'L'), 'clear': ('clear', ''), 'oneshot': ('oneshot', 'L'), 'toggle': ('toggle', 'L'),
    'clearm': ('clearm', 'M'), 'swapm': ('swapm', 'LM'), 'togglem': ('togglem', 'LM'), 'layerm': ('layerm', 'LM'),
    'oneshotm': ('oneshotm', 'LM'), 'layer': ('layer', 'L'), 'overload': ('overload', 'LD'),
    'overloadt': ('overloadt', 'LDT'), 'overloadt2': ('overloadt2', 'LDT'), 'overloadi': ('overloadi', 'DDT'),
    'timeout': ('timeout', 'DTD'), 'macro2': ('macro2', 'TTM'), 'setlayout': ('setlayout', 'Y'),
    'scrollt': ('scrollt', 'N'), 'scroll': ('scroll', 'N'),
    'overload2': ('overloadt', 'LDT'), 'overload3': ('overloadt2', 'LDT'), 'toggle2': ('togglem', 'LM'), 'swap2': ('swapm', 'LM'),
}
MODLAYER = {SHIFT: 'shift', CTRL: 'control', META: 'meta', ALT: 'alt', ALTGR: 'altgr'}

DEFAULT_ALIASES = {42: 'shift', 54: 'shift', 56: 'alt', 100: 'altgr', 125: 'meta', 126: 'meta', 29: 'control', 97: 'control'}


class Layer:
    def __init__(self, name, kind='normal', mods=frozenset(), cons=()):
        self.name, self.kind, self.mods, self.cons = name, kind, mods, list(cons)
        self.keymap, self.chords = {}, []   # chords: [keys tuple, descriptor]

    def copy(self):
        l = Layer(self.name, self.kind, self.mods, self.cons)
        l.keymap = dict(self.keymap)
        l.chords = [list(c) for c in self.chords]
        return l


class Config:
    def __init__(self, text=None, files=None):
        self.layers, self.aliases = [], {}
        self.ids, self.wildcard = [], False
        self.g = dict(macro_timeout=600, macro_repeat_timeout=50, macro_sequence_timeout=0, chord_timeout=50, chord_hold_timeout=0,
                      oneshot_timeout=0, overload_tap_timeout=0, disable_modifier_guard=0, layer_indicator=0, default_layout='')
        self.bad = []   # line numbers of refused bindings
        self.nmac = self.ncmd = self.ndesc = 0
        self.aliases = dict(DEFAULT_ALIASES)
        for n, k, m in (('main', 'layout', ''), ('control', 'normal', 'C'), ('shift', 'normal', 'S'), ('meta', 'normal', 'M'),
                        ('alt', 'normal', 'A'), ('altgr', 'normal', 'G')):
            self.layers.append(Layer(n, k, frozenset(m)))
        for a in ('shift', 'alt', 'altgr', 'meta', 'control'):
            self.add_entry('main.%s = layer(%s)' % (a, a))
        self.ok = True
        if text is not None:
            self.ok = self.parse(self.expand(text, files or {}))

    def copy(self):
        c = Config.__new__(Config)
        c.__dict__.update(self.__dict__)
        c.layers = [l.copy() for l in self.layers]
        c.aliases = dict(self.aliases)
        c.g = dict(self.g)
        return c

    @staticmethod
    def expand(text, files):
        out = []
        for l in text.split('\n'):
            if l.startswith('include '):
                f = l[8:].lstrip(' ')
                if '.' not in f and f in files:
                    t = files[f]
                    out.extend((t[:-1] if t.endswith('\n') else t).split('\n'))
                else:
                    out.append(None)
                continue
            out.append(l)
        return '\n'.join(l for l in out if l is not None)

    def layer_index(self, n):
        for i, l in enumerate(self.layers):
            if l.name == n:
                return i
        return -1

    def add_layer(self, s):
        if blen(s) > 64:
            raise Bad('section name too long')
        parts = [p for p in s.split(':') if p]
        if not parts:
            raise Bad('empty section name')
        name = parts[0]
        typ = parts[1] if len(parts) > 1 else None
        if self.layer_index(name) != -1:
            return
        if len(self.layers) >= 32:
            raise Bad('max layers')
        if '+' in name:
            if typ:
                raise Bad('composite with type')
            cons = []
            for c in [x for x in name.split('+') if x]:
                i = self.layer_index(c)
                if i < 0:
                    raise Bad('invalid constituent')
                if len(cons) >= 8:
                    raise Bad('too many constituents')
                cons.append(i)
            self.layers.append(Layer(name, 'composite', frozenset(), cons))
        elif typ == 'layout':
            self.layers.append(Layer(name, 'layout'))
        elif typ and modset(typ) is not None:
            self.layers.append(Layer(name, 'normal', modset(typ)))
        else:
            self.layers.append(Layer(name))

    def sections(self, text):
        secs, cur = [], None
        for ln, line in enumerate(text.split('\n'), 1):
            line = line.strip(' \t\n\v\f\r')
            if not line:
                continue
            if line[0] == '[' and line[-1] == ']' and not (line[1:].lstrip(' \t')[:1] == '=' or (line[1:2] == '+' and '=' in line)):
                cur = (line[1:-1], [])
                secs.append(cur)
                continue
            if line[0] == '#':
                continue
            if cur is None:
                return None
            k, v = kvp(line)
            cur[1].append((k, v, ln))
        return secs

    def parse(self, text):
        secs = self.sections(text)
        if secs is None:
            return False
        for name, ents in secs:
            if name == 'ids':
                for k, v, ln in ents:
                    self.add_id(k)
            elif name == 'aliases':
                for k, v, ln in ents:
                    self.add_alias(k, v)
            elif name == 'global':
                for k, v, ln in ents:
                    if v is None:
                        continue
                    if k == 'default_layout':
                        self.g[k] = v[:63]
                    elif k in ('layer_indicator', 'disable_modifier_guard'):
                        self.g[k] = atoi(v) & 255
                    elif k in self.g:
                        self.g[k] = atoi(v)
            else:
                try:
                    self.add_layer(name)
                except Bad:
                    pass
        for name, ents in secs:
            if name in ('ids', 'aliases', 'global'):
                continue
            parts = [p for p in name.split(':') if p]
            for k, v, ln in ents:
                if v is None:
                    self.bad.append(ln)
                    continue
                if not parts:
                    self.bad.append(ln)
                    continue
                try:
                    self.add_entry('%s.%s = %s' % (parts[0], k, v))
                except Bad:
                    self.bad.append(ln)
        return True

    def add_id(self, s):
        if s == '*':
            self.wildcard = True
        elif len(self.ids) >= 64:
            pass
        elif s.startswith('m:'):
            self.ids.append((s[2:], 'm'))
        elif s.startswith('k:'):
            self.ids.append((s[2:], 'k'))
        elif s.startswith('-'):
            self.ids.append((s[1:], '-'))
        elif len(s) < 63:
            self.ids.append((s, 'mk'))

    def match(self, devid, flags):
        for i, f in self.ids:
            if devid.startswith(i):
                if f == '-':
                    return 0
                if set(f) & set(flags):
                    return 2
        return 1 if self.wildcard else 0

    def add_alias(self, k, v):
        if v is None or k not in NAMES or blen(v) >= 32:
            return
        c = NAMES[k]
        if v in NAMES:
            self.layers[0].keymap[c] = ('key', NAMES[v], frozenset())
        self.aliases[c] = v

    # -- bindings
    def add_entry(self, exp):
        if blen(exp) >= 512:
            raise Bad('expression too long')
        dot, par, eq = exp.find('.'), exp.find('('), exp.find('=', 1)
        if 0 <= eq < dot:
            dot = -1        # within the action
        lname, s = 'main', exp
        if dot > 0 and (par < 0 or dot < par):
            lname, s = exp[:dot], exp[dot + 1:]
        key, val = kvp(s)
        li = self.layer_index(lname)
        if li < 0:
            raise Bad('no layer %s' % lname)
        d = self.descriptor(val)
        self.set_entry(self.layers[li], key, d)

    def set_entry(self, layer, key, d):
        if '+' in key and key.strip('+'):
            toks = [t for t in key.split('+') if t]
            codes = []
            for t in toks:
                if t not in NAMES:
                    raise Bad('invalid key in chord')
                if len(codes) >= 8:
                    raise Bad('chord too big')
                codes.append(NAMES[t])
            for c in layer.chords:
                if set(c[0]) == set(codes):
                    c[1] = d
                    return
            if len(layer.chords) >= 64:
                raise Bad('too many chords')
            layer.chords.append([tuple(codes), d])
            return
        codes = [c for c in sorted(self.aliases) if self.aliases[c] == key and key]
        if not codes:
            if key not in NAMES:
                raise Bad('invalid key')
            codes = [NAMES[key]]
        for c in codes:
            if d is None:
                layer.keymap.pop(c, None)
            else:
                layer.keymap[c] = d

    def descriptor(self, s):
        if not s:
            return None
        ks = key_sequence(s)
        if ks:
            if ks[0] in MODLAYER:
                return ('layer', self.layer_index(MODLAYER[ks[0]]))
            return ('key',) + ks
        if s.startswith('command(') and s.endswith(')'):
            if blen(s) > 256 or self.ncmd >= 64:
                raise Bad('command')
            self.ncmd += 1
            return ('command', escape(s[8:-1]))
        m = macro_expression(s)
        if m is not None:
            self.count_macro()
            return ('macro', m)
        f = parse_fn(s)
        if f:
            name, args = f
            if name == 'lettermod':
                if len(args) != 4:
                    raise Bad('lettermod')
                f = parse_fn('overloadi(%s, overloadt2(%s, %s, %s), %s)' % (args[1], args[0], args[1], args[3], args[2]))
                if not f:
                    raise Bad('lettermod')
                name, args = f
            if name in ACTIONS:
                op, types = ACTIONS[name]
                if len(args) != len(types):
                    raise Bad('arguments')
                out = []
                for a, t in reversed(list(zip(args, types))):
                    if t == 'L':
                        i = self.layer_index(a)
                        if a == 'main' or i < 0 or self.layers[i].kind == 'layout':
                            raise Bad('layer')
                        out.append(i)
                    elif t == 'Y':
                        i = self.layer_index(a)
                        if i < 0 or (i and self.layers[i].kind != 'layout'):
                            raise Bad('layout')
                        out.append(i)
                    elif t == 'D':
                        d = self.descriptor(a)
                        if self.ndesc >= 1024:
                            raise Bad('descriptors')
                        self.ndesc += 1
                        out.append(d)
                    elif t == 'N':
                        v = atoi(a) & 0xffff
                        out.append(v - 0x10000 if v & 0x8000 else v)
                    elif t == 'T':
                        out.append(atoi(a) & 0xffff)
                    elif t == 'M':
                        m = macro_expression(a)
                        if m is None:
                            raise Bad('macro')
                        self.count_macro()
                        out.append(m)
                return (op,) + tuple(reversed(out))
        raise Bad('invalid key or action')

    def count_macro(self):
        if self.nmac >= 256:
            raise Bad('macros')
        self.nmac += 1


def kvp(s):
    start = 1 if s[:1] == '=' else 0
    last = None
    for i in range(start, len(s)):
        c = s[i]
        if c == '=':
            k = s[:last] if last is not None else s[:i]
            return k, s[i + 1:].lstrip(' \t')
        if c in ' \t':
            if last is None:
                last = i
        else:
            last = None
    return s, None


# ---------------------------------------------------------------- engine
class State:
    __slots__ = ('active', 'toggled', 'oneshot', 'at')

    def __init__(self):
        self.active = self.toggled = self.oneshot = 0
        self.at = 0


class Pending:
    pass


class Keyboard:
    """sink: object with key(code, val), pause(us), layer(kbd, idx, on), command(str), now_us"""

    def __init__(self, config, sink):
        self.orig = config
        self.config = config.copy()
        self.sink = sink
        self.clock = 1
        self.st = [State() for _ in config.layers]
        self.st[0].active = 1
        dl = config.g['default_layout']
        if dl:
            for i, l in enumerate(config.layers):
                if l.kind == 'layout' and l.name == dl:
                    self.st[i].active = 1
                    self.st[i].at = 1
                    break
        self.cache = {}         # code -> [descriptor, layer found in, layer activated], in slot order
        self.slots = [0] * CACHE
        self.down = set()       # keys held on the output
        self.last_out = 0
        self.last_code = 0
        self.latch = False
        self.inhibit = False
        self.macro = None
        self.macro_at = self.macro_ivl = 0
        self.macro_dl = 0
        self.oneshot_at = 0
        self.ov_start = 0
        self.last_simple = 0
        self.pend = None
        self.chords = [None] * NCHORD
        self.cstate = 'idle'
        self.cq = []
        self.cmatch = None
        self.clast = 0
        self.scroll_active = 0
        self.scroll_sens = 0
        self.scroll_x = self.scroll_y = 0
        self.deadline = None
        self.cov = set()

    # -- key cache, preserving the slot order used by swap
    def cget(self, code):
        return self.cache.get(code)

    def cset(self, code, ent):
        slot = -1
        for i, c in enumerate(self.slots):
            if c == code:
                slot = i
                break
            elif not c:
                slot = i
        if slot < 0:
            return False
        self.slots[slot] = code
        self.cache[code] = ent
        return True

    def cdel(self, code):
        if code in self.cache:
            self.slots[self.slots.index(code)] = 0
            return self.cache.pop(code)

    # -- output
    def send(self, code, val):
        if code in (NOOP, EXTMOUSE):
            return
        if val:
            self.last_out = code
        if (code in self.down) != bool(val):
            (self.down.add if val else self.down.discard)(code)
            self.sink.key(code, val)

    def clear_mod(self, code):
        if (self.last_out == code and code in GUARDED and not self.inhibit and not self.config.g['disable_modifier_guard']
                and CTRL not in self.down):
            self.cov.add('guard')
            self.send(CTRL, 1)
            self.send(code, 0)
            self.send(CTRL, 0)
        else:
            self.send(code, 0)

    def set_mods(self, mods):
        for m, code in MODKEYS:
            if m in mods:
                if code not in self.down:
                    self.send(code, 1)
            elif code in self.down:
                self.clear_mod(code)

    def update_mods(self, dl, mods=frozenset()):
        L = self.config.layers
        ex = set()
        if dl != -1:
            ex.add(dl)
            if L[dl].kind == 'composite':
                ex.update(L[dl].cons)
        mods = set(mods)
        for i, l in enumerate(L):
            if self.st[i].active and i not in ex:
                mods |= l.mods
        self.set_mods(mods)

    def raw_macro(self, m):
        """a whole macro, straight to the virtual device"""
        seq = self.config.g['macro_sequence_timeout']
        run_macro(self.sink, m, seq)

    def execute_macro(self, dl, m):
        if len(m) == 1 and m[0][0] == 'key':
            self.update_mods(dl, m[0][2])
            self.send(m[0][1], 1)
            self.send(m[0][1], 0)
        else:
            self.update_mods(dl)
            self.raw_macro(m)

    # -- layers
    def activate(self, code, idx):
        self.clock += 1
        s = self.st[idx]
        s.at = self.clock
        s.active += 1
        e = self.cget(code)
        if e:
            e[2] = idx
        if s.active == 1:
            self.sink.layer(self, idx, 1)

    def deactivate(self, idx):
        self.st[idx].active -= 1
        assert self.st[idx].active >= 0
        if not self.st[idx].active:
            self.sink.layer(self, idx, 0)

    def clear_oneshot(self):
        for i, s in enumerate(self.st):
            while s.oneshot:
                self.deactivate(i)
                s.oneshot -= 1
                self.cov.add('oneshot-consumed')
        self.latch = False
        self.oneshot_at = 0

    def clear(self):
        self.clear_oneshot()
        for i, l in enumerate(self.config.layers):
            if i and l.kind != 'layout' and self.st[i].toggled:
                self.st[i].toggled = 0
                self.deactivate(i)
        self.macro = None
        for c in sorted(self.down):
            self.sink.key(c, 0)
        self.down.clear()

    def setlayout(self, idx):
        self.clear()
        for i, l in enumerate(self.config.layers):
            if i and l.kind == 'layout':
                self.st[i].active = 0
        if idx:
            self.st[idx].at = 1
            self.st[idx].active = 1
        self.sink.layer(self, idx, 1)

    def lookup(self, code):
        if CHORD1 <= code <= CHORDMAX:
            c = self.chords[code - CHORD1]
            return (c[2], c[1]) if c else (None, 0)
        L = self.config.layers
        best, d, dl = 0, None, 0
        for i, l in enumerate(L):
            if self.st[i].active and code in l.keymap and self.st[i].at >= best:
                best, d, dl = self.st[i].at, l.keymap[code], i
        mx = 0
        for i, l in enumerate(L):
            if l.kind == 'composite' and code in l.keymap and len(l.cons) > mx and all(self.st[c].active for c in l.cons):
                d, dl, mx = l.keymap[code], i, len(l.cons)
        if d is None:
            d, dl = ('key', code, frozenset()), 0
        return d, dl

    # -- actions
    def act(self, code, d, dl, on, t):
        if d is None:
            if on:
                self.last_code = code
            return
        op = d[0]
        g = self.config.g
        self.cov.add((op, bool(on)))
        if on and op in ('layerm', 'oneshotm', 'togglem'):
            self.execute_macro(dl, d[2])
        if op == 'key':
            c, mods = d[1], d[2]
            if on:
                if c in self.down:
                    self.send(c, 0)
                self.update_mods(dl, mods)
                self.send(c, 1)
                self.clear_oneshot()
            else:
                self.send(c, 0)
                self.update_mods(-1)
            if not mods or mods == {'S'}:
                self.last_simple = t
        elif op == 'scroll':
            self.scroll_sens = d[1]
            self.scroll_active = 1 if on else 0
        elif op == 'scrollt':
            self.scroll_sens = d[1]
            if on:
                self.scroll_active ^= 1
        elif op == 'overloadi':
            if on:
                a = d[2] if t - self.last_simple >= d[3] else d[1]
                self.cov.add(('overloadi', a is d[2]))
                e = self.cget(code)
                if e:
                    e[0] = a
                self.act(code, a, dl, 1, t)
        elif op in ('overloadt', 'overloadt2'):
            if on:
                self.pend = p = Pending()
                p.code, p.dl, p.q = code, dl, []
                p.kind = 'tap2' if op == 'overloadt2' else 'plain'
                p.a1, p.a2 = d[2], ('layer', d[1])
                p.expire = t + d[3]
        elif op == 'timeout':
            if on:
                self.pend = p = Pending()
                p.code, p.dl, p.q = code, dl, []
                p.kind = 'interrupt'
                p.a1, p.a2 = d[1], d[3]
                p.expire = t + d[2]
        elif op == 'setlayout':
            if on:
                self.setlayout(d[1])
        elif op in ('layer', 'layerm'):
            if on:
                self.activate(code, d[1])
            else:
                self.deactivate(d[1])
            if self.last_code == code:
                self.inhibit = True
                self.update_mods(-1)
                self.inhibit = False
            else:
                self.update_mods(-1)
        elif op in ('clear', 'clearm'):
            if on:
                self.clear()
                if op == 'clearm':
                    self.execute_macro(dl, d[1])
        elif op == 'overload':
            if on:
                self.ov_start = t
                self.activate(code, d[1])
                self.update_mods(-1)
            else:
                self.deactivate(d[1])
                self.update_mods(-1)
                lim = g['overload_tap_timeout']
                if self.last_code == code and (not lim or t - self.ov_start < lim):
                    self.cov.add('overload-tap')
                    self.tap(code, d[2], dl, t)
        elif op in ('oneshot', 'oneshotm'):
            if on:
                self.activate(code, d[1])
                self.update_mods(dl)
                self.latch = True
            elif self.latch:
                self.st[d[1]].oneshot += 1
                if g['oneshot_timeout']:
                    self.oneshot_at = t + g['oneshot_timeout']
            else:
                self.deactivate(d[1])
                self.update_mods(-1)
        elif op in ('macro', 'macro2'):
            if on:
                if op == 'macro2':
                    m, tmo, self.macro_ivl = d[3], d[1], d[2]
                else:
                    m, tmo, self.macro_ivl = d[1], g['macro_timeout'], g['macro_repeat_timeout']
                self.clear_oneshot()
                self.execute_macro(dl, m)
                self.macro, self.macro_dl = m, dl
                self.macro_at = t + tmo
        elif op in ('toggle', 'togglem'):
            if on:
                s = self.st[d[1]]
                s.toggled ^= 1
                if s.toggled:
                    self.activate(0, d[1])
                else:
                    self.deactivate(d[1])
                self.update_mods(-1)
                self.clear_oneshot()
        elif op == 'command':
            if on:
                self.sink.command(d[1])
                self.clear_oneshot()
                self.update_mods(-1)
        elif op in ('swap', 'swapm'):
            idx = d[1]
            m = d[2] if op == 'swapm' else None
            if on:
                s = self.st[dl]
                if s.toggled:
                    self.deactivate(dl)
                    s.toggled = 0
                    self.activate(0, idx)
                    self.st[idx].toggled = 1
                    self.update_mods(-1)
                    self.cov.add('swap-toggled')
                elif s.oneshot:
                    self.deactivate(dl)
                    s.oneshot -= 1
                    self.activate(0, idx)
                    self.st[idx].oneshot += 1
                    self.update_mods(-1)
                    self.cov.add('swap-oneshot')
                elif dl and self.config.layers[dl].kind == 'normal':
                    for c in self.slots:
                        if c and self.cache[c][2] == dl:
                            self.cache[c][0] = ('layer', idx)
                            self.deactivate(dl)
                            self.activate(c, idx)
                            self.update_mods(-1)
                            self.cov.add('swap-held')
                            break
                if m is not None:
                    self.execute_macro(dl, m)
            elif m is not None and len(m) == 1 and m[0][0] == 'key':
                self.send(m[0][1], 0)
                self.update_mods(-1)
        if on:
            self.last_code = code

    def tap(self, code, d, dl, t):
        """perform an action as a tap: its press followed by its release"""
        if d is not None and d[0] == 'macro':
            self.execute_macro(dl, d[1])
            return
        self.cset(code, [d, dl, 0])
        self.act(code, d, dl, 1, t)
        self.event(code, 0, t)

    # -- chords
    def chord_match(self):
        full, partial, best, m = False, False, -1, None
        pressed = [c for c, on, _ in self.cq if on]
        if not pressed:
            return 0, None
        for i, l in enumerate(self.config.layers):
            if not self.st[i].active:
                continue
            for keys, d in l.chords:
                if all(c in keys for c in pressed):
                    if len(pressed) == len(keys):
                        if best <= self.st[i].at:
                            best, m, full = self.st[i].at, (keys, i, d), True
                    else:
                        partial = True
        if full:
            return (3 if partial else 2), m
        return (1 if partial else 0), None

    def resolve_chord(self):
        self.cstate = 'resolving'
        q, off = self.cq, 0
        if self.cmatch:
            for i in range(NCHORD):
                c = self.chords[i]
                if not (c and c[3]) and not (self.pend and any(q[0] == CHORD1 + i for q in self.pend.q)):
                    keys, li, d = self.cmatch
                    self.chords[i] = [set(keys), li, d, True]
                    self.cov.add('chord')
                    off = len(keys)
                    self.event(CHORD1 + i, 1, self.clast)
                    break
        self.events(q[off:])
        self.cstate = 'idle'
        return True

    def abort_chord(self):
        self.cmatch = None
        self.cov.add('chord-abort')
        return self.resolve_chord()

    def handle_chord(self, code, on, t):
        g = self.config.g
        ik, hold = g['chord_timeout'], g['chord_hold_timeout']
        if code and not on:
            for i in range(NCHORD):
                c = self.chords[i]
                if c and c[3] and code in c[0]:
                    c[0].discard(code)
                    if not c[0]:
                        # its action stays known until the slot is used again: its events may still be deferred
                        c[3] = False
                        self.event(CHORD1 + i, 0, t)
                    return True
        if self.cstate == 'resolving':
            return False

        def matched(r):
            if r in (1, 3):
                self.cstate = 'wait'
                self.clast = t
            else:
                self.clast = t
                if hold:
                    self.cstate = 'hold'
                else:
                    self.resolve_chord()
            return True

        if self.cstate == 'idle':
            if not code:
                self.cq = []
                self.cmatch = None
                return False
            self.cq = [(code, on, t)]
            r, m = self.chord_match()
            self.cmatch = m
            if r == 0:
                return False
            return matched(r)
        if self.cstate == 'wait':
            if not code:
                if t - self.clast >= ik:
                    if self.cmatch:
                        if hold - ik > 0:
                            self.cstate = 'hold'
                        else:
                            return self.resolve_chord()
                        return True
                    return self.abort_chord()
                return False
            if on and any(c == code for c, _, _ in self.cq):
                return True
            self.cq.append((code, on, t))
            if not on:
                return self.abort_chord()
            r, m = self.chord_match()
            if m:
                self.cmatch = m
            if r == 0:
                return self.abort_chord()
            return matched(r)
        if self.cstate == 'hold':
            if not code:
                if t - self.clast >= hold:
                    return self.resolve_chord()
                return False
            if on and code in self.cmatch[0]:
                return True
            self.cq.append((code, on, t))
            if not on and code in self.cmatch[0]:
                return self.abort_chord()
            if len(self.cq) >= QUEUE:
                return self.abort_chord()
            return True
        return False

    # -- pending tap/hold decision
    def handle_pending(self, code, on, t):
        p = self.pend
        if not p:
            return False
        a = Ellipsis
        if code:
            if not on and code != p.code and not any(c == code for c, _, _ in p.q):
                return False
            p.q.append((code, on, t))
        if t >= p.expire:
            a = p.a2
            self.cov.add(('expire', p.kind))
        elif code and code == p.code:
            a = p.a1
            self.cov.add(('release', p.kind))
        elif code and on and p.kind == 'interrupt':
            a = p.a1
            self.cov.add(('interrupted', p.kind))
        elif p.kind == 'tap2' and code and not on:
            a = p.a2
            self.cov.add(('tap', p.kind))
        elif len(p.q) >= QUEUE:
            a = p.a2
        if a is Ellipsis or a is None:
            return True
        q, c, dl = p.q, p.code, p.dl
        self.pend = None
        self.cset(c, [a, dl, 0])
        self.act(c, a, dl, 1, t)
        self.events(q)
        return True

    # -- one event (code 0: time passes)
    def event(self, code, on, t):
        r = self.handle_chord(code, on, t)
        if r and code:
            return
        r = self.handle_pending(code, on, t)
        if r and code:
            return
        if self.oneshot_at and t >= self.oneshot_at:
            self.cov.add('oneshot-timeout')
            self.clear_oneshot()
            self.update_mods(-1)
        if self.macro is not None:
            if code:
                self.macro = None
                self.update_mods(-1)
            elif t >= self.macro_at:
                self.cov.add('macro-repeat')
                self.execute_macro(self.macro_dl, self.macro)
                self.macro_at = t + self.macro_ivl
        if code:
            if on:
                if self.cget(code):
                    return
                d, dl = self.lookup(code)
                if not self.cset(code, [d, dl, 0]):
                    return
            else:
                e = self.cdel(code)
                if not e:
                    return
                d, dl = e[0], e[1]
            self.act(code, d, dl, on, t)

    def next_deadline(self, t):
        """the time by which the engine must be called again"""
        c = []
        g = self.config.g
        if self.pend:
            c.append(self.pend.expire)
        if self.cstate == 'wait':
            c.append(self.clast + g['chord_timeout'])
        elif self.cstate == 'hold':
            c.append(self.clast + g['chord_hold_timeout'])
        if self.oneshot_at:
            c.append(self.oneshot_at)
        c = [x if x > t else t + 2 for x in c]
        if self.macro is not None and self.macro_at > t:
            c.append(self.macro_at)
        return min(c) if c else None

    def events(self, evs):
        """replay queued events, letting timeouts between them happen"""
        ts = None
        i = 0
        while i < len(evs):
            code, on, t = evs[i]
            if ts is not None and ts <= t:
                cur = ts
                self.event(0, 0, cur)
            else:
                cur = t
                self.event(code, on, t)
                i += 1
            ts = self.next_deadline(cur)

    def feed(self, code, on, t):
        self.event(code, on, t)
        self.deadline = self.next_deadline(t)

    def tick(self, t):
        self.event(0, 0, t)
        self.deadline = self.next_deadline(t)

    def bind(self, exp):
        if exp == 'reset':
            self.config = self.orig.copy()
            return True
        # a refused binding changes nothing visible
        try:
            self.config.add_entry(exp)
            return True
        except Bad:
            return False


def run_macro(sink, m, seq):
    hold = None
    for i, e in enumerate(m):
        if e[0] == 'hold':
            if hold is None:
                hold = i
            sink.key(e[1], 1)
        elif e[0] == 'rel':
            if hold is not None:
                for x in m[hold:i]:
                    if x[0] == 'hold':
                        sink.key(x[1], 0)
                hold = None
        elif e[0] == 'uni':
            for c in unicode_codes(e[1]):
                sink.key(c, 1)
                sink.key(c, 0)
        elif e[0] == 'key':
            for x, c in MODKEYS:
                if x in e[2]:
                    sink.key(c, 1)
            if e[2] and seq:
                sink.pause(seq)
            sink.key(e[1], 1)
            sink.key(e[1], 0)
            for x, c in MODKEYS:
                if x in e[2]:
                    sink.key(c, 0)
        elif e[0] == 'wait':
            sink.pause(e[1] * 1000)
        if seq:
            sink.pause(seq)
