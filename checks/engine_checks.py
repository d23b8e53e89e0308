"""E01..E18: the remapping engine."""
import fw, engine, gen, spec, model
from gen import C, Typist, delays, Conf, rand_glob, ALLW
from fw import Out

CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


PTR = set(model.BTN) | {spec.S_DOWN, spec.S_UP, spec.S_LEFT, spec.S_RIGHT}
PHYS = ['a', 'b', 'c', 'd', 'e', 'f', 'j', 'k', 'capslock', 'space', 'semicolon']
PMOD = ['leftshift', 'leftcontrol', 'leftalt', 'leftmeta', 'rightalt', 'rightshift']
TECH = ('runtime monitoring: output trace of the real daemon (simulated kernel and clock, ASan/UBSan) checked by an online executable specification')
NOTE = 'random configurations and histories around this feature; not exhaustive'


def spec_out(c):
    if c in model.BTN:
        return (1, model.BTN[c])
    return (0, model.SPECIAL_OUT.get(c, c))


def W(**kw):
    w = dict(gen.SIMPLE)
    w.update(kw)
    return w


def trace(r):
    return tuple((ui, ty, code, val) for t, ui, ty, code, val in r.got)


class EngineCheck(fw.Check):
    focus = ()          # coverage items of the specification that make a run non-trivial
    w = None
    quick, thorough = 16000, 200000
    technique = TECH
    level_note = NOTE
    cargs = {}
    nkeys = (3, 7)
    steps = (10, 60)
    maxheld = 5
    glob = 0.25
    extra = 2
    delay_extra = ()
    variant_every = 1

    def setup(self, rng, i):
        """-> (keys to bind, Conf)"""
        n = rng.randrange(*self.nkeys)
        keys = rng.sample(PHYS, min(n, len(PHYS)))
        if rng.random() < 0.35:
            keys += rng.sample(PMOD, rng.randrange(1, 3))
        kw = dict(self.cargs)
        kw.setdefault('glob', rand_glob(rng, self.glob))
        if rng.random() < 0.2:
            kw.setdefault('out', gen.SYM[:8] + rng.sample(gen.ANYKEY, 12) + ['mouseforward', 'micmute'])
        return keys, Conf(rng, keys, self.w or ALLW, **kw)

    def type(self, rng, keys, c, i):
        ty = Typist(rng)
        extra = rng.sample(['q', 'w', 'r', 'leftshift', 'leftalt', 'f1'], self.extra)
        d = delays(rng, c.timeouts() + list(self.delay_extra) or [50])
        ty.random(keys + [k for k in extra if k not in keys], rng.randrange(*self.steps), d, maxheld=self.maxheld, prel=rng.choice([0.4, 0.5, 0.6]), tap=rng.choice([0.1, 0.4]))
        ty.release_all(d)
        return ty

    def case(self, rng, i, tier):
        keys, c = self.setup(rng, i)
        ty = self.type(rng, keys, c, i)
        ev = ty.ev
        if rng.random() < 0.1:
            # key repeat events of the kernel, to be ignored
            ev = ev + [[t + 1, d, k, 2] for t, d, k, v in rng.sample(ev, min(5, len(ev))) if v]
            ev.sort(key=lambda e: e[0])
        return dict(confs={'default.conf': c.text()}, ev=ev, end=ty.t + 4000000, start=rng.choice([1000000, 10**9, 10**9, 5 * 10**12]))

    def direct(self, r, case):
        return None

    def observed(self, r):
        cov = set()
        for kb in r.model.kbds:
            cov |= kb.cov
        return cov

    def run_case(self, ctx, case):
        r = engine.run(ctx, case, self.variants[0])
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if not hasattr(r, 'got'):
            return Out(viol=r.why)
        v = self.direct(r, case) or r.why
        if v:
            return Out(viol=v)
        return self.out(r, case)

    def out(self, r, case):
        cov = self.observed(r)
        hit = [f for f in self.focus if f in cov]
        counts = {'outputs': len(r.got), 'inputs': r.model.nev}
        for f in hit:
            counts['runs with ' + (f if isinstance(f, str) else '%s %s' % (f[0], {True: 'press', False: 'release'}.get(f[1], f[1])))] = 1
        return Out(sig=hash_trace(r) if hit or not self.focus else None, n=1, counts=counts)


def hash_trace(r):
    import hashlib
    return hashlib.md5(repr(trace(r)).encode()).hexdigest()


def held_at_end(got):
    h = set()
    for t, ui, ty, code, val in got:
        if ty == 1:
            (h.add if val else h.discard)((ui, code))
    return h


@check
class E01(EngineCheck):
    id = 'E01'
    quick, thorough = 18300, 200000
    rule = ('random configs over every action (nested tap/hold, chords, macros, layouts, composites) x random typing that ends with all keys up and 4 s of silence; '
            'evaluations = histories; distinct = output traces; oracle: nothing but latched layer modifiers is held, and the whole trace matches the specification')
    cargs = dict(depth=2)

    def setup(self, rng, i):
        self.cargs = dict(depth=2, chords=rng.choice([0, 0, 0.3]))
        return super().setup(rng, i)

    def type(self, rng, keys, c, i):
        if i % 8 != 3:
            return super().type(rng, keys, c, i)
        # more keys down than keyd remembers
        ty = Typist(rng)
        d = delays(rng, c.timeouts() or [50])
        # (backspace: not part of it, as backspace, escape and enter together end keyd)
        pool = keys + [k for k in rng.sample(gen.POOL, 24) if k not in keys and k != 'backspace']
        for _ in range(rng.randrange(1, 4)):
            ty.random(pool, rng.randrange(20, 50), d, maxheld=rng.choice([15, 16, 17, 18, 24]), prel=0.2, tap=0.1)
            if rng.random() < 0.6:
                ty.release_all(d)
        return ty.release_all(d)

    def direct(self, r, case):
        h = held_at_end(r.got)
        bad = [x for x in h if x[0] != 0 or x[1] not in spec.MODSET]
        if bad:
            return 'left pressed although every key is up: %s' % sorted(bad)
        t = case['confs']['default.conf']
        if h and not any(a in t for a in ('toggle', 'oneshot', 'swap')):
            return 'modifiers left pressed although nothing latches a layer: %s' % sorted(h)

    def out(self, r, case):
        o = super().out(r, case)
        o.counts['runs ending with latched modifiers'] = 1 if held_at_end(r.got) else 0
        return o


@check
class E02(fw.Check):
    id = 'E02'
    quick, thorough = 15000, 150000
    rule = ('random config binding some keys (remaps, layers, overload, one-shot, toggle, macros) and random typing of up to 16 keys at once over all key codes; '
            'evaluations = strokes of unbound keys whose press and release were both checked; distinct = key code x keys held at the time')
    level_note = 'sampled key codes, configs and rollover patterns; every known key code is covered in each run'
    technique = 'runtime monitoring: trace comparison of virtual device output with typed input for unbound keys (simulated kernel, ASan/UBSan)'

    def case(self, rng, i, tier):
        codes = sorted(c for c in spec.KEYS if 0 < c < 248 and c not in (spec.NOOP, spec.EXTMOUSE) and not spec.CHORD1 <= c <= spec.CHORDMAX
                       and c not in spec.DEFAULT_ALIASES and c not in PTR)
        rng.shuffle(codes)
        nb = rng.randrange(0, 8)
        # cover all codes across cases
        allc = sorted(codes)
        u = [allc[(i * 7 + j) % len(allc)] for j in range(7)]
        bound = [c for c in codes if c not in u][:nb]
        extra = [c for c in codes if c not in u and c not in bound]
        outs, u2 = extra[:8], extra[8:8 + rng.randrange(3, 20)]
        u = u + u2
        on = lambda: spec.NAME[rng.choice(outs)]
        L = ['[ids]', '*', '[main]']
        acts = ['layer(l1)', 'layer(l2)', 'overload(l1, %s)', 'oneshot(l2)', 'toggle(l1)', 'macro(%s %s)', '%s', 'C-%s', 'A-%s', 'swap(l2)', 'layerm(l1, %s)', 'noop']
        def act():
            a = rng.choice(acts)
            while '%s' in a:
                a = a.replace('%s', on(), 1)
            return a
        for c in bound:
            L.append('%s = %s' % (spec.NAME[c], act()))
        L += ['[l1%s]' % rng.choice(['', ':C', ':S', ':A-M'])] + ['%s = %s' % (spec.NAME[c], act()) for c in bound if rng.random() < 0.4]
        L += ['[l2]'] + ['%s = %s' % (spec.NAME[c], act()) for c in bound if rng.random() < 0.4]
        L += ['[lay:layout]'] + ['%s = %s' % (spec.NAME[c], on()) for c in bound if rng.random() < 0.3]
        L += ['[l1+l2]'] + ['%s = %s' % (spec.NAME[c], on()) for c in bound if rng.random() < 0.3]
        ty = Typist(rng)
        few = lambda: rng.choice([0, 1000, 1, 17000, 3000, 250000])
        ty.random(u * 3 + bound, rng.randrange(20, 90), few, maxheld=16, prel=rng.choice([0.35, 0.5]))
        ty.release_all(few)
        return dict(confs={'default.conf': '\n'.join(L) + '\n'}, ev=ty.ev, unbound=sorted(u), end=ty.t + 3000000,
                    opts={}, start=rng.choice([1000000, 10**9, 10**12]))

    def run_case(self, ctx, case):
        r = engine.run(ctx, case, self.variants[0])
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        u = set(case['unbound'])
        exp, held, sig, n, drop = [], 0, set(), 0, set()
        if r.why and not hasattr(r, 'got'):
            return Out(viol=r.why)
        for t, d, c, v in case['ev']:
            held += 1 if v else -1
            if c in u:
                exp.append((t, spec_out(c), v))
                n += v
                if v:
                    sig.add((c, min(held, 17)))
        uo = {spec_out(c): c for c in u}
        got = [(t, code, val) for t, ui, ty, code, val in r.got if ty == 1 and (ui, code) in {(x[0], x[1]) for x in uo}]
        e2 = [(t, c[1], v) for t, c, v in exp]
        for a, b in zip(e2 + [None], got + [None]):
            if a is None and b is None:
                break
            if a is None or b is None or a[1:] != b[1:] or not 0 <= b[0] - a[0] <= 60000:
                return Out(viol='unbound key: typed %s, observed %s (time us, code, value)' % (a, b))
        if r.dropped:
            bad = [x for x in r.dropped if (x[1], x[3]) in uo]
            if bad:
                return Out(viol='key %s is not a key the virtual device announces' % (bad[0],))
        if r.why:
            return Out(viol=r.why)
        return Out(sig=sig, n=n, counts={'strokes': n, 'outputs': len(r.got)})


@check
class E03(EngineCheck):
    id = 'E03'
    focus = (('key', False), ('layer', False), ('setlayout', True), ('toggle', True))
    w = W(key=6, layer=5, oneshot=1, toggle=2, swap=1.5, setlayout=1.5, layerm=1, overload=1.5, clear=0.5)
    nkeys = (4, 9)
    maxheld = 8
    rule = ('keys bound differently in many layers and layouts, held across random layer, toggle, swap and layout changes and runtime binds; '
            'evaluations = histories; distinct = output traces; oracle: specification, plus per key: each emitted key is released at the release of the stroke that emitted it')
    cargs = dict(player=0.7, nlayouts=2, depth=0)

    def case(self, rng, i, tier):
        c = super().case(rng, i, tier)
        if rng.random() < 0.3:
            import ipcutil
            names = [spec.NAME[e[2]] for e in c['ev'] if e[3] == 1]
            binds = {}
            for k in range(rng.randrange(1, 5)):
                t = rng.choice(c['ev'])[0] + rng.choice([1, 500, 3000])
                exp = rng.choice(['%s = %s' % (rng.choice(names), rng.choice(gen.SYM)),
                                  'l1.%s = %s' % (rng.choice(names), rng.choice(gen.SYM)), 'reset'])
                binds[k] = ('bind', exp)
                c['ev'] += ipcutil.request(k, t, 2, exp)
            if not indexed(c):
                c['ipc'] = binds
            else:
                c['ev'] = [e for e in c['ev'] if not isinstance(e[1], str)]
        return c

    def run_case(self, ctx, case):
        import ipcutil
        r = engine.run(ctx, case, self.variants[0], ipc=ipcutil.table(case))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        return self.out(r, case)


def indexed(c):
    """does a config use actions that live in tables (reset while such a key is held is outside D04)"""
    t = c['confs']['default.conf']
    return any(a in t for a in ('macro', 'overload', 'timeout', 'lettermod', 'layerm', 'togglem', 'swapm', 'oneshotm', 'clearm', 'command'))


@check
class E04(EngineCheck):
    id = 'E04'
    quick = 9000
    focus = (('layer', True), ('toggle', True), ('oneshot', True))
    w = W(layer=5, toggle=3, oneshot=2, key=6)
    nkeys = (5, 9)
    maxheld = 7
    rule = 'up to 5 layers, 2 layouts and composite layers binding overlapping key sets, activated in random orders by hold, toggle and one-shot; evaluations = histories; distinct = output traces'

    def setup(self, rng, i):
        self.cargs = dict(player=0.5, nlayers=rng.randrange(2, 6), nlayouts=rng.randrange(0, 3), composites=0.6, depth=0, moded=0.2)
        keys, c = super().setup(rng, i)
        if i % 4 == 1:
            # nested composites: every constituent has its key, and the composites bind the others
            ls = rng.sample(c.layers, min(len(c.layers), rng.randrange(2, 5))) + rng.sample(['shift', 'control', 'alt'], rng.randrange(0, 2))
            ks = keys[:len(ls)]
            ls = ls[:len(ks)]
            rest = keys[len(ls):] + ['x', 'y']
            comps = {'+'.join(rng.sample(ls, rng.randrange(2, len(ls) + 1))) for _ in range(6)} if len(ls) > 1 else set()
            c.comps = rng.sample(sorted(comps), min(len(comps), rng.randrange(1, 6)))
            c.body = {l: e for l, e in c.body.items() if '+' not in l}
            c.targets = [t for t in c.targets if '+' not in t]
            for l in c.body:
                c.body[l] = [(k, '%s(%s)' % (rng.choice(['layer', 'layer', 'toggle', 'oneshot']), ls[ks.index(k)])) if k in ks and (l == 'main' or rng.random() < 0.5) else (k, v)
                             for k, v in c.body[l] if not any(x in v for x in comps)]
            have = {k for k, v in c.body['main']}
            c.body['main'] += [(k, 'layer(%s)' % l) for k, l in zip(ks, ls) if k not in have]
            for q in c.comps:
                c.body[q] = [(k, c.action(layer=q, simple=rng.random() < 0.8)) for k in rest if rng.random() < 0.7]
            keys = list(dict.fromkeys(keys + ['x', 'y']))
        return keys, c

    def type(self, rng, keys, c, i):
        if i % 1500 != 250:
            return super().type(rng, keys, c, i)
        # a long session: more layer activations than a 16 bit counter holds, then ordinary typing
        lk = [k for k, a in c.body['main'] if a.startswith('layer(') and '+' not in k]
        if not lk:
            return super().type(rng, keys, c, i)
        ty = Typist(rng)
        n = 65536 + rng.randrange(-40, 40) if rng.random() < 0.5 else 32768 + rng.randrange(-40, 40)
        k = rng.choice(lk)
        for _ in range(n):
            ty.t += 1000
            ty.tap(k, 1000)
        for _ in range(6):
            ty.random(keys, rng.randrange(10, 40), lambda: rng.choice([0, 1000, 20000]), maxheld=self.maxheld)
            ty.release_all(lambda: 1000)
        return ty


@check
class E05(EngineCheck):
    id = 'E05'
    focus = (('layer', True), ('key', True))
    w = W(layer=5, toggle=1.5, oneshot=1.5, key=4, modkey=5, macro=1, overload=1, swap=0.5, layerm=0.5)
    rule = ('layers with every modifier set, bindings with every modifier prefix, stacked in random order; evaluations = histories; distinct = output traces; '
            'oracle: the set of modifiers held at each emitted key')

    def setup(self, rng, i):
        self.cargs = dict(moded=0.9, player=0.6, composites=0.4, depth=0, chords=rng.choice([0, 0, 0.4]))
        k, c = super().setup(rng, i)
        if rng.random() < 0.5:
            k = list(dict.fromkeys(k + rng.sample(PMOD, 2)))
        return k, c


@check
class E06(EngineCheck):
    id = 'E06'
    focus = ('guard',)
    w = W(layer=5, overload=2, oneshot=2, toggle=1, modkey=3, key=3, macro=0.7, swap=1, layerm=0.5, overloadt=0.7)
    rule = ('layers carrying alt, meta and altgr entered and left with and without keystrokes in between, with the guard on and off; evaluations = histories; distinct = output traces in which '
            'the guard acted; oracle: bare taps of alt/meta/altgr in the output are exactly those the specification has')
    glob = 0.15
    steps = (6, 40)

    def setup(self, rng, i):
        old = gen.MODSTR
        gen.MODSTR = ['A', 'M', 'G', 'A', 'M', 'A-M', 'C-A', 'S-M', 'C']
        try:
            self.cargs = dict(moded=0.9, player=0.5, depth=1, nlayers=rng.randrange(1, 4), nlayouts=0)
            k, c = super().setup(rng, i)
        finally:
            gen.MODSTR = old
        return list(dict.fromkeys(k + rng.sample(['leftalt', 'leftmeta', 'rightalt'], 2))), c


@check
class E07(EngineCheck):
    id = 'E07'
    focus = ('overload-tap', ('overload', True))
    w = W(overload=8, key=4, layer=1)
    rule = ('overload() on several keys with plain, modified, macro, layer, toggle, one-shot and nested tap actions, tapped, held, interrupted, with overload_tap_timeout around the hold time; '
            'evaluations = histories; distinct = output traces')

    def setup(self, rng, i):
        self.cargs = dict(depth=2, player=0.4, nlayers=rng.randrange(1, 4), nlayouts=0, composites=0.1)
        self.w = W(overload=9, key=4, layer=1, oneshot=0.7, toggle=0.7, macro=1, overloadt=0.3, timeout=0.3, command=0.2, clear=0.3, swap=0.3)
        k, c = super().setup(rng, i)
        if rng.random() < 0.5:
            c.glob['overload_tap_timeout'] = rng.choice([1, 2, 5, 50, 200])
        return k, c


@check
class E08(EngineCheck):
    id = 'E08'
    focus = (('expire', 'plain'), ('expire', 'tap2'), ('expire', 'interrupt'), ('release', 'plain'), ('release', 'tap2'), ('release', 'interrupt'),
             ('interrupted', 'interrupt'), ('tap', 'tap2'))
    quick, thorough = 25800, 258000
    rule = ('overloadt, overloadt2 and timeout keys with time-outs of 10..200 ms and event gaps concentrated within 2 ms around them, with other keys struck during the decision; evaluations = histories; distinct = output traces')

    def setup(self, rng, i):
        self.w = W(overloadt=5, overloadt2=5, timeout=4, key=4, layer=0.7, lettermod=0.5, oneshot=0.3, overload=0.5, toggle=0.3)
        self.cargs = dict(depth=2, player=0.5, nlayers=rng.randrange(1, 4), composites=0.1)
        return super().setup(rng, i)


@check
class E09(EngineCheck):
    id = 'E09'
    quick = 6000
    focus = (('overloadi', True), ('overloadi', False))
    rule = ('overloadi and lettermod keys preceded by symbols, shifted symbols, control chords, macros and layer keys at gaps around the idle time-out; evaluations = histories; distinct = output traces; '
            'plus lettermod replaced by its documented expansion, whose outputs must be identical')

    def setup(self, rng, i):
        self.w = W(overloadi=5, lettermod=4, key=4, modkey=2, layer=0.5, overload=0.4)
        self.cargs = dict(depth=1, player=0.4, nlayers=rng.randrange(1, 3), nlayouts=0, composites=0.1)
        return super().setup(rng, i)

    def run_case(self, ctx, case):
        import re
        o = super().run_case(ctx, case)
        t = case['confs']['default.conf']
        if o.viol or o.inconclusive or 'lettermod' not in t:
            return o
        t2 = re.sub(r'lettermod\((\S+), (\S+), (\d+), (\d+)\)', r'overloadi(\2, overloadt2(\1, \2, \4), \3)', t)
        a = model.outputs(ctx.run(engine.scenario(case), self.variants[0]).lines)[0]
        c2 = dict(case, confs={'default.conf': t2})
        b = model.outputs(ctx.run(engine.scenario(c2), self.variants[0]).lines)[0]
        if a != b:
            return Out(viol='lettermod and its expansion differ: %s' % first_diff(a, b))
        o.counts['expansions compared'] = 1
        return o


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return 'output %d: %s versus %s (us, device, type, code, value)' % (i, x, y)
    return 'nothing'


@check
class E10(EngineCheck):
    id = 'E10'
    focus = (('expire', 'plain'), ('expire', 'tap2'), ('release', 'plain'), ('release', 'interrupt'), ('tap', 'tap2'), 'chord', 'chord-abort')
    rule = ('bursts of 2..80 events typed while a tap/hold or chord decision is open (including more than fit its queue), over unbound and remapped keys; evaluations = histories; distinct = output traces; '
            'oracle: each deferred press and release appears once and in order, at the decision')

    def nested(self, rng):
        """decisions inside decisions: the action decided on opens a decision of its own, as do the keys queued behind it"""
        T = lambda: rng.choice([20, 50, 90])
        def dec(depth):
            x = rng.choice(['x', 'y', 'z', 'S-1', 'layer(l1)', 'macro(1 2)', 'oneshot(l2)', 'overload(l1, w)']) if depth <= 0 or rng.random() < 0.3 else dec(depth - 1)
            return rng.choice(['overloadt(l1, %s, %d)' % (x, T()), 'overloadt2(l2, %s, %d)' % (x, T()), 'timeout(%s, %d, %s)' % (x, T(), dec(depth - 1) if depth > 0 else 'v'),
                               'timeout(u, %d, %s)' % (T(), x), 'overloadi(%s, %s, %d)' % (x, x, T()), x])
        ks = rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g'], rng.randrange(2, 5))
        L = ['[ids]', '*', '[main]'] + ['%s = %s' % (k, dec(rng.choice([1, 2, 2, 3]))) for k in ks[:2]] + ['%s = %s' % (k, dec(rng.choice([0, 0, 1]))) for k in ks[2:]]
        if any(len(l) > 200 for l in L):
            return self.nested(rng)
        L += ['[l1%s]' % rng.choice(['', ':C', ':S'])] + ['%s = %s' % (k, rng.choice(['4', 'C-5', dec(0)])) for k in ks if rng.random() < 0.5] + ['[l2:A]', '%s = 6' % ks[0]]
        ty = Typist(rng)
        pool = ks + ['q', 'r', 's']
        for _ in range(rng.randrange(2, 7)):
            gap = lambda: rng.choice([0, 300, 1000, 1000, 4000])
            if (C[ks[0]], 0) not in ty.held:
                ty.press(ks[0])
                ty.t += gap()
            for _ in range(rng.randrange(1, 4)):
                ty.random(pool, rng.randrange(0, 10), gap, maxheld=7, prel=0.5, tap=0.3)
                ty.t += rng.choice([0, 1000, 19000, 20000, 21000, 49000, 50000, 51000, 90000, 200000])
            if rng.random() < 0.7:
                ty.release_all(gap)
                ty.t += rng.choice([0, 1000, 50000, 300000])
        ty.release_all(lambda: rng.choice([0, 1000, 60000]))
        return dict(confs={'default.conf': '\n'.join(L) + '\n'}, ev=ty.ev, end=ty.t + 2000000)

    def case(self, rng, i, tier):
        if i % 3 == 1:
            return self.nested(rng)
        T = rng.choice([30, 100, 200])
        hold = rng.choice([0, 0, 20, 60])
        op = rng.choice(['overloadt(l1, x, %d)', 'overloadt2(l1, x, %d)', 'timeout(x, %d, layer(l1))', 'overloadt(l1, macro(x y), %d)', 'chord', 'chord'])
        L = ['[ids]', '*', '[global]', 'chord_timeout = %d' % T, 'chord_hold_timeout = %d' % hold, '[main]']
        if op == 'chord':
            n = rng.choice([2, 2, 3])
            ck = ['a', 'b', 'c'][:n]
            L.append('%s = %s' % ('+'.join(ck), rng.choice(['x', 'layer(l1)', 'macro(x y)'])))
            if rng.random() < 0.4:
                L.append('a+d = y')
        else:
            L.append('a = ' + op % T)
        others = ['f', 'g', 'h', 'j', 'k', 'm', 'n', 'p', 'q', 'r']
        rem = rng.sample(others, 3)
        L += ['%s = %s' % (k, rng.choice(['1', 'S-2', '3', 'layer(l2)'])) for k in rem]
        L += ['[l1%s]' % rng.choice(['', ':C', ':S'])] + ['%s = %s' % (k, rng.choice(['4', 'C-5', 'z'])) for k in rng.sample(others, 4)]
        L += ['[l2:A]', 'f = 6']
        ty = Typist(rng)
        step = rng.choice([0, 300, 1000, 2500])
        gap = lambda: rng.choice([0, step, step, 1])
        for _ in range(rng.randrange(1, 4)):
            for k in rng.sample(others, rng.randrange(0, 4)):
                if (C[k], 0) in ty.held:
                    continue
                ty.press(k)
                ty.t += gap()
            ty.t += 100000
            for k in (ck[:rng.randrange(1, n + 1)] if op == 'chord' else ['a']):
                if (C[k], 0) in ty.held:
                    continue
                ty.press(k)
                ty.t += gap()
            nb = rng.choice([2, 5, 12, 29, 30, 31, 32, 33, 34, 40, 70])
            ty.random(others, nb, gap, maxheld=10, prel=0.5, tap=0)
            if rng.random() < 0.5 and (C['a'], 0) in ty.held:
                ty.release('a')
            ty.t += rng.choice([0, 1000, T * 500, T * 1000 - 1, T * 1000, T * 1000 + 1000, T * 2000])
            if rng.random() < 0.6:
                ty.release_all(gap)
            else:
                for c, d in list(ty.held):
                    if c in (30, 48, 46):
                        ty.release(c, d)
        ty.release_all(gap)
        return dict(confs={'default.conf': '\n'.join(L) + '\n'}, ev=ty.ev, end=ty.t + 2000000)

    def direct(self, r, case):
        # keys nobody binds: presses and releases conserved and ordered among themselves
        t = case['confs']['default.conf']
        for n in ('g', 'h', 'j', 'k', 'm', 'n', 'p', 'q', 'r'):
            if ('\n%s = ' % n) in t:
                continue
            c = C[n]
            a = [e[3] for e in case['ev'] if e[2] == c]
            b = [x[4] for x in r.got if x[2] == 1 and x[1] == 0 and x[3] == c]
            if a != b:
                return 'key %s was typed %s but emitted %s' % (n, a, b)


@check
class E11(EngineCheck):
    id = 'E11'
    focus = ('oneshot-consumed', 'oneshot-timeout', ('oneshot', False), ('oneshotm', True))
    rule = ('several one-shot keys with modifier, plain and overlapping layers tapped, doubled, held and combined with keys, macros, commands, toggles, clear, clicks of an uncaptured and a captured mouse, '
            'and oneshot_timeout around the gaps; evaluations = histories; distinct = output traces in which a one-shot was used')

    def setup(self, rng, i):
        self.w = W(oneshot=7, oneshotm=2, key=4, macro=1, command=0.6, toggle=0.8, clear=0.6, layer=1, swap=0.5, overload=0.5)
        self.cargs = dict(depth=0, player=0.5, nlayers=rng.randrange(1, 4), moded=0.7, composites=0.2)
        k, c = super().setup(rng, i)
        if rng.random() < 0.5:
            c.glob['oneshot_timeout'] = rng.choice([10, 50, 400])
        return k, c

    def case(self, rng, i, tier):
        c = super().case(rng, i, tier)
        if rng.random() < 0.5:
            ext = rng.random() < 0.5
            c['devs'] = [{'i': 0}, {'i': 1, 'mouse': 1, 'vendor': 2, 'product': 2}]
            c['devmap'] = {0: 0, 1: 'ext' if ext else 0}
            if not ext:
                c['confs']['default.conf'] = c['confs']['default.conf'].replace('[ids]\n*\n', '[ids]\n*\nm:0002:0002\n')
            ts = [e[0] for e in c['ev']]
            more = []
            for _ in range(rng.randrange(1, 6)):
                t = rng.choice(ts) + rng.choice([0, 1000, 20000])
                if rng.random() < 0.6:
                    more += [[t, 1, 272, 1], [t + 3000, 1, 272, 0]]
                else:
                    more += [[t, 'ev 1 2 %d %d' % (rng.choice([8, 8, 6, 0, 1]), rng.choice([1, -1, 2]))]]
            # keep the mouse's own presses well formed
            more.sort(key=lambda e: e[0])
            c['ev'] = sorted(c['ev'] + fix_clicks(more), key=lambda e: e[0])
            c['end'] = max(c['end'], c['ev'][-1][0] + 3000000)
        return c


def fix_clicks(more):
    out, down, last = [], False, 0
    for e in more:
        if isinstance(e[1], str):
            out.append(e)
            continue
        if e[3] == 1 and not down:
            down = True
            out.append(e)
        elif e[3] == 0 and down:
            down = False
            out.append(e)
    return out


@check
class E12(EngineCheck):
    id = 'E12'
    focus = (('toggle', True), ('togglem', True), ('clear', True), ('clearm', True))

    def setup(self, rng, i):
        self.w = W(toggle=6, togglem=2, clear=2, clearm=1, key=4, layer=2, oneshot=1.5, setlayout=1, swap=0.5)
        self.cargs = dict(depth=0, player=0.5, nlayers=rng.randrange(1, 5), composites=0.2)
        return super().setup(rng, i)
    rule = 'several keys toggling the same and different layers, from inside and outside those layers, mixed with clear, clearm, held layers, one-shots and layouts; evaluations = histories; distinct = output traces'


@check
class E13(EngineCheck):
    id = 'E13'
    focus = ('swap-held', 'swap-toggled', 'swap-oneshot', ('swapm', True))
    quick = 16000

    def setup(self, rng, i):
        self.w = W(swap=6, swapm=3, key=3, layer=4, toggle=1.5, oneshot=1.5, overload=1, layerm=0.5, setlayout=0.3)
        self.cargs = dict(depth=0, player=0.65, nlayers=rng.randrange(2, 5), composites=0.2, moded=0.6)
        return super().setup(rng, i)
    rule = ('layers entered by hold (several keys), overload, toggle and one-shot, left by swap() and swapm() chains in both release orders; evaluations = histories; distinct = output traces in which a swap happened; '
            'after the end no layer may be active that was not toggled')


@check
class E14(EngineCheck):
    id = 'E14'
    focus = (('setlayout', True),)

    def setup(self, rng, i):
        self.w = W(setlayout=5, key=4, layer=2, toggle=1, oneshot=1, clear=1, clearm=0.3)
        self.cargs = dict(depth=0, player=0.6, nlayers=rng.randrange(1, 4), nlayouts=rng.randrange(1, 4), composites=0.3)
        k, c = super().setup(rng, i)
        if rng.random() < 0.5:
            c.glob['default_layout'] = rng.choice(c.layouts + ['lay9', 'main', 'l1'])
        return k, c
    rule = 'up to 3 layouts, default_layout, switched while layers, toggles and one-shots are active and keys are held, and clear(); evaluations = histories; distinct = output traces'


@check
class E15(EngineCheck):
    id = 'E15'
    focus = ('chord', 'chord-abort')
    quick, thorough = 30000, 300000
    rule = ('chords of 2..4 keys in main and other layers, overlapping and nested, struck in every order with gaps around chord_timeout and chord_hold_timeout, completed, interrupted and abandoned, '
            'up to several at once; evaluations = histories; distinct = output traces in which a chord was completed or abandoned')

    def case(self, rng, i, tier):
        ik, hold = rng.choice([10, 30, 50]), rng.choice([0, 0, 20, 50, 80])
        keys = rng.sample(PHYS, rng.randrange(4, 8))
        L = ['[ids]', '*', '[global]']
        if ik != 50 or rng.random() < 0.5:
            L.append('chord_timeout = %d' % ik)
        if hold:
            L.append('chord_hold_timeout = %d' % hold)
        c = Conf(rng, keys, W(key=5, modkey=2, macro=1, layer=2, overload=1, overloadt=0.7, oneshot=0.7, toggle=0.5), depth=0, nlayers=2, nlayouts=rng.choice([0, 1]))
        sets, groups = [], []
        def some(layer):
            out = []
            for _ in range(rng.randrange(1, 4)):
                if sets and rng.random() < 0.4:
                    s = list(rng.choice(sets))
                    if rng.random() < 0.6 and len(s) < 4:
                        s += rng.sample([k for k in keys if k not in s], 1)
                    else:
                        s = s[:2]
                else:
                    s = rng.sample(keys, rng.choice([2, 2, 3, 4]))
                rng.shuffle(s)
                sets.append(tuple(s))
                out.append('%s = %s' % ('+'.join(s), c.action(simple=rng.random() < 0.5)))
            return out
        L += ['[main]'] + ['%s = %s' % (k, c.action()) for k in keys if rng.random() < 0.3] + some('main')
        L += ['[l1:%s]' % c.mods['l1'] if c.mods['l1'] else '[l1]'] + ['%s = %s' % (k, c.action(simple=True)) for k in keys if rng.random() < 0.3] + (some('l1') if rng.random() < 0.6 else [])
        L += ['[l2]'] + (some('l2') if rng.random() < 0.3 else [])
        for l in c.layouts:
            L += ['[%s:layout]' % l] + some(l)
        ty = Typist(rng)
        mul = lambda: rng.choice([0, 0, 1000, 3000, ik * 500, ik * 1000 - 1000, ik * 1000 - 1, ik * 1000, ik * 1000 + 1000, hold * 1000, hold * 1000 + 1000, hold * 500])
        for _ in range(rng.randrange(2, 9)):
            s = list(rng.choice(sets)) if rng.random() < 0.85 else rng.sample(keys, 2)
            rng.shuffle(s)
            if rng.random() < 0.15:
                s = s[:-1]
            if rng.random() < 0.2:
                s.insert(rng.randrange(len(s) + 1), rng.choice(keys + ['q']))
            if rng.random() < 0.3:
                s2 = list(rng.choice(sets))
                s += s2
            for k in s:
                if (C[k], 0) in ty.held:
                    continue
                ty.press(k)
                ty.t += mul() if rng.random() < 0.6 else rng.choice([0, 1000])
            ty.t += mul()
            if rng.random() < 0.8:
                ty.release_all(lambda: rng.choice([0, 1000, 5000, mul()]))
            elif ty.held:
                c_, d_ = rng.choice(ty.held)
                ty.release(c_, d_)
            ty.t += rng.choice([0, 1000, 100000, 300000, mul()])
        ty.release_all(mul)
        return dict(confs={'default.conf': '\n'.join(L) + '\n'}, ev=ty.ev, end=ty.t + 3000000)


@check
class E16(EngineCheck):
    id = 'E16'
    focus = (('macro', True), ('macro2', True), ('layerm', True), ('oneshotm', True), ('togglem', True), ('swapm', True), ('clearm', True))

    def setup(self, rng, i):
        self.w = W(macro=8, macro2=1, layerm=1, oneshotm=1, togglem=1, swapm=1, clearm=0.6, key=1, layer=2, overload=1)
        self.cargs = dict(depth=1, player=0.5, nlayers=rng.randrange(1, 3), moded=0.8, tmo=[100, 300])
        return super().setup(rng, i)
    rule = ('macros of keys, modified keys, + groups with delays, pauses, plain text and unicode, from layers with modifiers and through every macro-taking action, with and without macro_sequence_timeout; '
            'evaluations = histories; distinct = output traces in which a macro ran; oracle: keys, order, modifiers and pauses as written')

    def direct(self, r, case):
        h = held_at_end(r.got)
        bad = [x for x in h if x[1] not in spec.MODSET]
        if bad:
            return 'left pressed: %s' % sorted(bad)


@check
class E17(EngineCheck):
    id = 'E17'
    focus = ('macro-repeat',)
    quick = 12000
    rule = ('macros held for up to 1.5 s alone, released or interrupted around the next repeat, with random repeat timings and macro2 values; evaluations = histories; distinct = output traces with repeats')
    steps = (4, 16)

    def setup(self, rng, i):
        self.w = W(macro=6, macro2=5, key=2, layer=1.2, overload=0.5, oneshot=0.3)
        self.cargs = dict(depth=0, player=0.4, nlayers=rng.choice([1, 1, 2]), moded=0.7, nlayouts=0, composites=0, tmo=[5, 20, 40, 100, 150])
        self.delay_extra = ()
        k, c = super().setup(rng, i)
        c.glob['macro_timeout'] = rng.choice([20, 50, 150, 600])
        if rng.random() < 0.8:
            c.glob['macro_repeat_timeout'] = rng.choice([7, 20, 50])
        c.glob.pop('macro_sequence_timeout', None)
        if rng.random() < 0.15:
            c.glob['macro_sequence_timeout'] = 1000
        return k, c

    def type(self, rng, keys, c, i):
        ty = Typist(rng)
        T = c.timeouts()
        lk = [k for k, a in c.body['main'] if a.startswith('layer(') and '+' not in k]
        mk = [k for k in keys if k not in lk]
        for j in range(rng.randrange(2, 7)):
            k = rng.choice(lk if lk and rng.random() < 0.3 else (mk or keys))
            if (C[k], 0) in ty.held:
                ty.release(k)
                continue
            ty.press(k)
            a, b = rng.choice(T), rng.choice(T)
            ty.t += rng.choice([1000, (a + b * rng.randrange(0, 6)) * 1000 + rng.choice([-1000, -1, 0, 1000, 2000]), rng.randrange(0, 1500000)])
            if rng.random() < 0.8:
                ty.release(k)
            ty.t += rng.choice([0, 1000, 50000])
        ty.release_all(lambda: rng.choice([1000, 70000]))
        return ty


@check
class E18(EngineCheck):
    id = 'E18'
    focus = (('expire', 'plain'), ('expire', 'tap2'), ('expire', 'interrupt'), 'oneshot-timeout', 'macro-repeat', 'chord', 'chord-abort')
    quick, thorough = 2600, 60000
    rule = ('every kind of timeout, alone and several at once, with unrelated events (mouse motion, other keyboards, IPC connections) arriving meanwhile, each history run at four uptimes (1 s .. 3000 days); '
            'evaluations = runs; distinct = output traces; oracle: each due timeout observed no later than 5 ms after it is due and never early, and identical outputs at every uptime')

    def setup(self, rng, i):
        self.w = W(overloadt=3, overloadt2=2, timeout=3, oneshot=2, macro=2, macro2=1, overloadi=1, overload=1, key=2)
        self.cargs = dict(depth=1, player=0.4, chords=rng.choice([0, 0.4]))
        k, c = super().setup(rng, i)
        if rng.random() < 0.5:
            c.glob['oneshot_timeout'] = rng.choice([20, 90, 400])
        if i % 3 == 0:
            # several timeouts running at the same time
            free = [x for x in PHYS if x not in k]
            T = lambda: rng.choice([15, 40, 90, 250])
            acts = ['oneshot(l1)', 'macro2(%d, %d, m n)' % (T(), T()), 'timeout(u, %d, v)' % T(), 'overloadt(l1, y, %d)' % T(), 'overload(l1, z)', 'oneshot(l1)']
            new = [(x, rng.choice(acts)) for x in free[:4]]
            c.body['main'] += new
            c.body['main'].append(('g+h', rng.choice(['x', 'layer(l1)'])))
            c.glob['oneshot_timeout'] = T()
            c.glob['chord_timeout'] = T()
            if rng.random() < 0.5:
                c.glob['chord_hold_timeout'] = T()
            c.tmos |= {15, 40, 90, 250}
            k = k + [x for x, _ in new] + ['g', 'h', 'g', 'h']
        return k, c

    def type(self, rng, keys, c, i):
        ty = super().type(rng, keys, c, i)
        os_ = [k for k, a in c.body['main'] if a.startswith('oneshot(') and '+' not in k]
        pe = [k for k, a in c.body['main'] if a.startswith(('overloadt(', 'timeout(', 'macro2(')) and '+' not in k]
        if 'g' not in keys or not os_ or not pe:
            return ty
        # each of a one-shot, a tap/hold decision and a chord in progress at once, due in any order
        ty.t += 1000000
        for _ in range(rng.randrange(1, 5)):
            T = int(c.glob['oneshot_timeout'])
            todo = [(rng.randrange(0, T), rng.choice(pe)), (rng.randrange(0, T), rng.choice('gh'))]
            if rng.random() < 0.7:
                todo = [(T - rng.randrange(0, min(T, 20)) - 1, k) for _, k in todo]
            t0 = ty.t
            ty.tap(rng.choice(os_), 500)
            for at, k in sorted(todo):
                ty.t = max(ty.t, t0 + at * 1000)
                ty.press(k)
            ty.t += rng.choice([500, 10000, 100000, 500000])
            ty.release_all(lambda: rng.choice([0, 1000, 30000]))
            ty.t += rng.choice([0, 500000])
        return ty

    def case(self, rng, i, tier):
        c = super().case(rng, i, tier)
        c['devs'] = [{'i': 0}, {'i': 1, 'vendor': 9, 'product': 9}, {'i': 2, 'mouse': 1, 'vendor': 2, 'product': 2}]
        T = lambda: rng.choice([15, 60, 150])
        # the other keyboard has timeouts of its own
        c['confs']['other.conf'] = '[ids]\n0009:0009\n[global]\noneshot_timeout = %d\n[main]\nz = y\nb = overloadt(o, 1, %d)\nd = oneshot(o)\ne = macro2(%d, %d, 2 3)\nf = timeout(4, %d, 5)\n[o:S]\nu = k\n' % (
            T(), T(), T(), T(), T())
        c['devmap'] = {0: 0, 1: 1, 2: 'ext'}
        end = c['ev'][-1][0]
        more = []
        t = 100000
        rate = rng.choice([0, 0, 3000, 20000, 100000, 100000])
        while rate and t < end + 300000 and len(more) < 300:
            t += rng.randrange(1, rate)
            x = rng.random()
            if x < 0.6:
                more.append([t, 'ev 2 2 0 1'])
            elif x < 0.9:
                k = C[rng.choice('uuzbdef')]
                h = rng.choice([10, 10, 40000, 200000])
                if not any(isinstance(e[1], int) and e[2] == k and e[0] >= t for e in more):
                    more += [[t, 1, k, 1], [t + h, 1, k, 0]]
                t += 20
            else:
                n = len(more)
                more += [[t, 'conn %d' % (n + 100)], [t + 5, 'close %d' % (n + 100)]]
                t += 10
        c['ev'] = sorted(c['ev'] + more, key=lambda e: e[0])
        c['start'] = 10**9
        c['other'] = rng.sample([10**6, 2**31 * 1000 - 50000, 2**31 * 1000, 2**32 * 1000 - 200000, 2**32 * 1000 + 5000, 3 * 10**14 - 3 * 10**14 % 1000, 25 * 86400 * 10**6], 2)
        return c

    def run_case(self, ctx, case):
        o = super().run_case(ctx, case)
        if o.viol or o.inconclusive:
            return o
        a = model.outputs(ctx.run(engine.scenario(case), self.variants[0]).lines)[0]
        for s in case['other']:
            r = ctx.run(engine.scenario(dict(case, start=s)), self.variants[0])
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol='at an uptime of %d ms: %s' % (s // 1000, r.died()))
            b = model.outputs(r.lines)[0]
            if a != b:
                return Out(viol='outputs differ between uptimes of %d and %d ms: %s' % (case['start'] // 1000, s // 1000, first_diff(a, b)))
        o.n = 1 + len(case['other'])
        o.counts['uptimes compared'] = len(case['other'])
        return o
