"""D01-D10: devices, reload, runtime bindings, listeners, typed text, commands, pointers, several keyboards, lights."""
import os, random, re
import fw, engine, gen, ipcutil, model, sim, spec
from fw import Out
from gen import Conf, Typist, delays, rand_glob
from robust2_checks import KINDS, devspec
from sim import payload

C = spec.NAMES
CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


def conf_text(j, ids, body=None):
    t = '[ids]\n' + ''.join(i + '\n' for i in ids)
    return t + '[main]\n' + (body or ''.join('%s = f%d\n' % (k, 13 + j) for k in ('a', 'leftmouse', 'volumeup', 'brightnessup')))


ADDED = re.compile(r'^device added: (\S+) (.*) \((/dev/input/event(\d+))\)$')


def device_ids(ctx, devs):
    """ids as shown by "keyd monitor" for devices with nodes eventN -> {device index: id}"""
    key = repr(sorted((sorted(d.items(), key=str) for d in devs), key=str))
    cache = ctx.__dict__.setdefault('idcache', {})
    if key not in cache:
        sc = sim.Scn()
        sc.arg('monitor')
        node = {}
        for d in devs:
            d = dict(d, present=1)
            d.pop('mouse', None)
            if d.get('ax'):
                d['ax'] = tuple(d['ax'])
            node[d['i']] = d.get('node') or 'event%d' % d['i']
            sc.dev(d.pop('i'), **d)
        sc.at(400000, 'end')
        r = ctx.run(sc)
        found = {}
        for l in r.stdout.split('\n'):
            m = ADDED.match(l)
            if m:
                found['event' + m.group(4)] = m.group(1)
        cache.clear()
        cache[key] = {i: found.get(n) for i, n in node.items()}
    return cache[key]


MICE = ('mouse', 'tablet', 'oneaxis', 'otheraxis', 'hwheel', 'ymouse')


def typed(kind):
    """what a device of that kind can send"""
    return {'volume': 115, 'vol115': 115, 'bright': 225}.get(kind, 272 if kind in MICE else C['a'])


def flags_of(kind):
    return 'm' if kind in MICE else 'km' if kind in ('both', 'touchkbd') else 'k'


KINDS1 = dict(KINDS)
KINDS1['both'] = (dict(key='1-248,272-279', rel='0,1,6,8', name='combo'), True)
KINDS1['touchkbd'] = (dict(key='1-248,272', abs='0,1', ax=[0, 1000, 0, 1000], name='kbd with touchpad'), True)
KINDS1['small'] = (dict(key='2-11,16-21,30', name='few keys'), True)
# more kinds of usable devices, each barely so
KINDS2 = dict(KINDS1)
KINDS2['vol115'] = (dict(key='115', name='volume up'), True)
KINDS2['bright'] = (dict(key='225', name='brightness up'), True)
KINDS2['plain'] = (dict(key='2-11,16-21,30', rel='8', name='keys and wheel'), True)
KINDS2['oneaxis'] = (dict(key='272', abs='0', ax=[0, 255, 0, 0], name='slider'), True)
KINDS2['otheraxis'] = (dict(key='272', abs='2', name='z axis'), True)
KINDS2['hwheel'] = (dict(key='272', rel='6', name='tilt'), True)
KINDS2['ymouse'] = (dict(key='272', rel='1', name='y only'), True)
# a device which lacks one of the keys that make a keyboard (digits and the left half of the top row) and cannot point is none keyd uses
LACK = {}
for k in list(range(2, 12)) + list(range(16, 22)):
    LACK['no%d' % k] = (dict(key=','.join(str(x) for x in list(range(2, 12)) + list(range(16, 22)) + [30] if x != k), name='not a keyboard'), False)
KINDS2.update(LACK)
MATCHABLE = ['kbd', 'kbd', 'mouse', 'tablet', 'volume', 'virtual', 'both', 'touchkbd', 'small', 'small', 'vol115', 'bright', 'plain', 'oneaxis', 'otheraxis', 'hwheel', 'ymouse']


def expand(tmpl, ids):
    """id line template (flag, device index or None, length) -> text"""
    if isinstance(tmpl, str):
        return tmpl
    fl, d, n = tmpl
    base = ids.get(d) or 'dead:beef:00000000'
    return {'k': 'k:', 'm': 'm:', '-': '-', '': ''}[fl] + base[:n]


def who(confs, devid, flags, virtual):
    """property D01: indices of configs which may capture the device (empty: none)"""
    if virtual or not devid:
        return []
    best = {}
    for j, ids in enumerate(confs):
        excl = any(x.startswith('-') and devid.startswith(x[1:]) for x in ids)
        if excl:
            continue
        listed = False
        for x in ids:
            if x[0] in '-*':
                continue
            f, s = ('k', x[2:]) if x.startswith('k:') else ('m', x[2:]) if x.startswith('m:') else ('km', x)
            if devid.startswith(s) and set(f) & set(flags):
                listed = True
        if listed:
            best.setdefault(2, []).append(j)
        elif '*' in ids:
            best.setdefault(1, []).append(j)
    if 2 in best:
        return best[2]
    return best.get(1, []) if 'k' in flags else []


@check
class D01(fw.Check):
    id = 'D01'
    quick, thorough = 15000, 150000
    technique = 'runtime monitoring: grab requests and remapped output of the real daemon (ASan+UBSan, simulated kernel) against an independent matching oracle over generated devices and config sets'
    level_note = 'random device and config sets; ties between configs of equal rank are accepted either way'
    rule = ('1-8 devices of 9 kinds with colliding ids/prefixes, present at start or plugged in later, x 1-5 configs of wildcards, exclusions, k:/m: and prefix ids; every device is typed on; '
            'evaluations = devices judged; distinct = (kind, rank, candidates, exclusion) classes x config shapes; oracle: grabbed iff some config qualifies, output is that of a best-ranked config, others are never grabbed')

    def case(self, rng, i, tier):
        n = rng.randrange(1, 8)
        devs, kinds = [], []
        for k in range(n):
            kind = rng.choice(MATCHABLE) if rng.random() < 0.95 else rng.choice(sorted(LACK))
            vp = dict(vendor=rng.choice([1, 1, 0x10, 0x1234]), product=rng.choice([1, 2, 0x21, 0x4567]))
            if kind == 'virtual':
                vp = dict(vendor=0x0fac, product=rng.choice([1, 0xade]))
            d = dict(i=k, node='event%d' % k, **KINDS2[kind][0])
            d.update(vp)
            if rng.random() < 0.3:
                d['name'] = rng.choice(['x', 'Keyboard', 'a b', 'keyd virtual keyboard', 'ü', 'kbd'])
            if rng.random() < 0.25:
                d['present'] = 0
            devs.append(d)
            kinds.append(kind)
        confs = []
        for j in range(rng.choice([1, 1, 2, 3, 4])):
            ids = []
            if rng.random() < 0.5:
                ids.append('*')
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                fl = rng.choice(['', '', '', 'k', 'm', '-', '-'])
                ids.append([fl, rng.choice(list(range(n)) + [None]), rng.choice([9, 9, 18, 18, 4, 13, 6])])
            if rng.random() < 0.02:
                ids += [['', None, 18]] * 80
            if rng.random() < 0.15:
                # keyd's own devices
                ids.append(rng.choice(['0fac', '0fac:1ade', '0fac:0ade', 'm:0fac:1ade', 'k:0fac']))
            # an exclusion comes before listings (contradictory lists have no defined meaning)
            ids.sort(key=lambda x: 0 if x == '*' else 1 if x[0] == '-' else 2)
            if rng.random() < 0.5:
                k = [x for x in ids if x == '*']
                ids = [x for x in ids if x != '*'] + k
            confs.append(ids)
        return dict(devs=devs, kinds=kinds, ids=confs)

    def shrink(self, case):
        for j in range(len(case['ids'])):
            if len(case['ids']) > 1:
                yield dict(case, ids=case['ids'][:j] + case['ids'][j + 1:])
            for k in range(len(case['ids'][j])):
                c = [list(x) for x in case['ids']]
                del c[j][k]
                yield dict(case, ids=c)

    def run_case(self, ctx, case):
        ids = device_ids(ctx, case['devs'])
        if any(v is None for k, v in ids.items() if case['kinds'][k] not in LACK):
            return Out(viol='monitor does not show devices %s' % [case['kinds'][k] for k, v in ids.items() if v is None])
        confs = [[expand(x, ids) for x in c] for c in case['ids']]
        ev, t = [], 500000
        for d, kind in zip(case['devs'], case['kinds']):
            if d.get('present', 1) == 0:
                ev.append([t - 200000, 'add %d' % d['i']])
            c = typed(kind)
            ev += [[t, d['i'], c, 1], [t + 10000, d['i'], c, 0]]
            t += 300000
        full = dict(confs={'c%d.conf' % j: conf_text(j, c) for j, c in enumerate(confs)}, devs=case['devs'], ev=sorted(ev, key=lambda e: e[0]), end=t + 100000)
        r = ctx.run(engine.scenario(full))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        grabbed = {}
        for f in r.lines:
            if f[0] == 'G' and int(f[2]) < 100:
                grabbed[int(f[2])] = int(f[3])
            elif f[0] == 'G':
                return Out(viol="keyd's own virtual device %s is captured; ids %s" % ('keyboard' if f[2] == '159' else 'pointer', confs))
        outs, _ = model.outputs(r.lines)
        sig, pos = set(), 0
        t = 500000
        for d, kind in zip(case['devs'], case['kinds']):
            i = d['i']
            cand = who(confs, ids[i], flags_of(kind), d['vendor'] == 0x0fac)
            what = 'device %d (%s %s)' % (i, kind, ids[i])
            mine = [o[1:] for o in outs if t <= o[0] < t + 300000]
            t += 300000
            if not cand:
                if grabbed.get(i) is not None:
                    return Out(viol='%s is captured although no config claims it; ids %s' % (what, confs))
                if mine:
                    return Out(viol='%s is not captured but produced %s' % (what, mine))
            else:
                if not grabbed.get(i):
                    return Out(viol='%s is not captured, config(s) %s claim it; ids %s' % (what, cand, confs))
                exp = [[(0, 1, C['f%d' % (13 + j)], 1), (0, 1, C['f%d' % (13 + j)], 0)] for j in cand]
                if mine not in exp:
                    return Out(viol='%s is claimed by config %s but produced %s; ids %s' % (what, cand, mine, confs))
            sig.add((kind, len(cand), tuple(x[0] for x in case['ids'][cand[0]]) if cand else None, any(x[0] == '-' for c in case['ids'] for x in c if x != '*')))
        return Out(sig=sig, n=len(case['devs']), counts={'captured': len(grabbed), 'devices': len(case['devs'])})


class World:
    """Random histories of typing on devices which come and go."""

    def __init__(self, rng, keys, delay, t=100000):
        self.rng, self.keys, self.delay, self.t = rng, keys, delay, t
        self.devs, self.kind, self.live, self.held = [], {}, [], {}
        self.ev = []

    def add_dev(self, kind, present=True, **kw):
        i = len(self.devs)
        d = dict(i=i, **KINDS1[kind][0])
        d.update(kw)
        if not present:
            d['present'] = 0
        self.devs.append(d)
        self.kind[i] = kind
        self.held[i] = set()
        if present:
            self.live.append(i)
        return i

    def pool(self, i):
        k = self.kind[i]
        return {'mouse': [272, 273], 'tablet': [272], 'volume': [114, 115]}.get(k) or [C[x] for x in self.keys]

    def put(self, x):
        self.ev.append([self.t, x])

    def stroke(self, i=None):
        """one press or release, or some motion"""
        r = self.rng
        if i is None:
            if not self.live:
                return
            i = r.choice(self.live)
        h = self.held[i]
        up = [c for c in self.pool(i) if c not in h]
        if self.kind[i] in ('mouse', 'both') and r.random() < 0.4:
            self.put('ev %d 2 %d %d' % (i, r.choice([0, 1, 8, 6]), r.choice([1, -1, 3, -5])))
        elif h and (r.random() < 0.5 or not up or len(h) > 4):
            c = r.choice(sorted(h))
            h.discard(c)
            self.ev.append([self.t, i, c, 0])
        elif up:
            c = r.choice(up)
            h.add(c)
            self.ev.append([self.t, i, c, 1])

    def step(self):
        self.t += self.delay()

    def plug(self, i, held=None):
        self.put('add %d' % i)
        self.live.append(i)
        if held:
            self.devs[i]['held'] = ','.join(map(str, sorted(held)))
            self.held[i] = set(held)

    def unplug(self, i, mode):
        self.put('rm %d %d' % (i, mode))
        self.live.remove(i)
        self.held[i].clear()

    def release_all(self, devs=None):
        for i in list(self.live if devs is None else devs):
            for c in sorted(self.held[i]):
                self.step()
                self.ev.append([self.t, i, c, 0])
            self.held[i].clear()

    def events(self):
        return sorted(self.ev, key=lambda e: e[0])


def physically_held(case):
    """-> function(device, us): keys held on the device at that moment according to the history"""
    hist = {}
    for d in case['devs']:
        if d.get('held'):
            hist.setdefault(d['i'], []).extend((-1, int(c), 1) for c in d['held'].split(','))
    for e in case['ev']:
        if len(e) == 4:
            hist.setdefault(e[1], []).append((e[0], e[2], e[3]))

    def f(dev, us):
        s = set()
        for t, c, v in hist.get(dev, ()):
            if t <= us:
                (s.add if v else s.discard)(c)
        return s
    return f


def shrink_strokes(case):
    """drop strokes only: the rest of the history has to stay consistent"""
    held = {(d['i'], int(c)) for d in case.get('devs', []) for c in (d.get('held') or '').split(',') if c}
    ev = case['ev']
    g = [x for x in fw.strokes(ev) if all(not isinstance(ev[i][1], str) and (ev[i][3] or len(x) > 1) for i in x) and not any((ev[i][1], ev[i][2]) in held for i in x)]
    n = 2
    while g:
        for a, b in fw.chunks(g, n):
            drop = {i for x in g[a:b] for i in x}
            yield dict(case, ev=[e for i, e in enumerate(ev) if i not in drop])
        if n >= len(g):
            break
        n = min(len(g), n * 2)
    if 'sets' not in case and 'alts' not in case:
        for c in fw.generic_shrink(dict(case, ev=[])):
            yield dict(c, ev=ev)


def grabs(lines):
    """[(us, device, on)]"""
    return [(int(f[1]), int(f[2]), f[3] == '1') for f in lines if f[0] == 'G' and int(f[2]) < 100]


def held_out(outs):
    s = set()
    for o in outs:
        if o[2] == 1:
            (s.add if o[4] else s.discard)((o[1], o[3]))
    return s


@check
class D02(fw.Check):
    id = 'D02'
    quick, thorough = 15000, 150000
    technique = 'runtime monitoring: grab requests and output of the real daemon (ASan+UBSan) under generated hotplug histories with probe/grab faults, against the executable specification fed with what was read'
    level_note = 'random histories; not exhaustive'
    rule = ('histories of plugging in (16 kinds, half of them faulty or irrelevant, some with keys already held), unplugging (events lost or delivered) and re-plugging on the same node while typing on all devices under random configs; evaluations = histories; '
            'distinct = (kinds, faults, removal modes) histories x output size; oracle: output trace, capture of exactly the matching usable devices once nothing is held on them, nothing left pressed')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'capslock', 'leftshift', 'space'], rng.randrange(2, 5))
        c = Conf(rng, keys + ['leftmouse', 'volumeup', 'scrollup'], depth=1, glob=rand_glob(rng, 0.15))
        c.ids = '*\n0002:0001\n' if rng.random() < 0.7 else '*\n'
        w = World(rng, keys, delays(rng, c.timeouts() or [50]))
        for _ in range(rng.randrange(1, 4)):
            self.new(w, rng, True)
        for _ in range(rng.randrange(8, 60)):
            w.step()
            x = rng.random()
            if x < 0.07 and len(w.devs) < 20:
                k = self.new(w, rng, False)
                h = None
                if w.kind[k] not in ('mouse', 'tablet', 'volume', 'nothing', 'noabs', 'noabsy') and rng.random() < 0.35:
                    h = set(rng.sample(w.pool(k), rng.randrange(1, 3)))
                w.plug(k, h)
                if h and KINDS1[w.kind[k]][1]:
                    # the daemon waits for the keys to be released
                    for _ in range(rng.choice([0, 1, 2, 3, 8])):
                        w.t += rng.choice([0, 100, 1000, 30000])
                        w.stroke(rng.choice(w.live + [k, k]))
                    w.t += rng.choice([1000, 50000, 400000])
                    for y in sorted(w.held[k]):
                        w.ev.append([w.t, k, y, 0])
                        w.t += rng.choice([0, 500, 20000])
                    w.held[k].clear()
                    w.t += 2000
            elif x < 0.13 and w.live:
                w.unplug(rng.choice(w.live), rng.randrange(2))
            elif x < 0.16 and w.live:
                # a hub: several devices vanish at once, and perhaps some come at once
                for k in rng.sample(w.live, rng.randrange(1, len(w.live) + 1)):
                    w.unplug(k, rng.randrange(2))
                w.t += rng.choice([0, 0, 1000, 200000])
                for _ in range(rng.choice([0, 0, 1, 3])):
                    if len(w.devs) < 24:
                        w.plug(self.new(w, rng, False))
                w.t += 2000
            elif x < 0.18:
                # other nodes appear
                w.put('mkfile dev/input/%s%d' % (rng.choice(['js', 'mouse', 'event-', 'eventx', 'ev', 'by-id']), len(w.ev)))
                if rng.random() < 0.7 and len(w.devs) < 24:
                    w.plug(self.new(w, rng, False))
            else:
                w.stroke()
        w.step()
        w.release_all()
        w.t += 6000000
        devmap = {}
        for d in w.devs:
            k = w.kind[d['i']]
            if not KINDS1[k][1] or k == 'virtual':
                devmap[d['i']] = None
            elif k in ('mouse', 'tablet'):
                devmap[d['i']] = 0 if '0002' in c.ids else 'ext'
            elif k in ('nograb', 'nokeystate'):
                devmap[d['i']] = None
            else:
                devmap[d['i']] = 0
        return dict(confs={'default.conf': c.text()}, devs=w.devs, devmap=devmap, ev=w.events(), end=w.t)

    def new(self, w, rng, present):
        k = rng.choice(['kbd', 'kbd', 'kbd', 'mouse', 'mouse', 'volume', 'both', 'small'] + list(KINDS1))
        kw = {}
        if k in ('mouse', 'tablet'):
            kw = dict(vendor=2)
        used = {d['node'] for d in w.devs if d['i'] in w.live}
        kw['node'] = rng.choice([n for n in ('event%d' % y for y in range(len(used) + 3)) if n not in used])
        return w.add_dev(k, present, **kw)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        r = engine.run(ctx, case)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        devmap = {int(k): v for k, v in case['devmap'].items()}
        phys = physically_held(case)
        present, t0 = {}, {}
        for d in case['devs']:
            if d.get('present', 1):
                t0[d['i']] = 0
        gone = {}
        for e in case['ev']:
            if isinstance(e[1], str):
                f = e[1].split()
                if f[0] == 'add':
                    t0[int(f[1])] = e[0]
                elif f[0] == 'rm':
                    gone[int(f[1])] = e[0]
        first = {}
        for t, d, on in grabs(r.res.lines):
            if not on and gone.get(d, 2**62) > t:
                return Out(viol='device %d was let go at %d us although it is still there' % (d, t))
            if on:
                if not isinstance(devmap.get(d), int):
                    return Out(viol='device %d, which no config matches, was captured' % d)
                if d in first:
                    return Out(viol='device %d captured twice' % d)
                first[d] = t
                h = phys(d, t)
                if h:
                    return Out(viol='device %d was captured at %d us while keys %s were held on it' % (d, t, sorted(h)))
        for d, k in devmap.items():
            if isinstance(k, int) and d in t0:
                # nothing held for a while before it went away (a wait for another device's keys may come first)
                end = gone.get(d, case['end'])
                quiet = max([t0[d]] + [e[0] for e in case['ev'] if len(e) == 4 and e[1] == d and e[0] <= end] +
                            [x for k, v in devmap.items() if isinstance(v, int) and k in t0 for x in (first.get(k, gone.get(k, 0)),) if x <= end])
                if d not in first and not phys(d, end) and end - quiet > 2000000:
                    return Out(viol='device %d was plugged in at %d us and never captured' % (d, t0[d]))
        if held_out(r.got) - held_out(r.exp):
            return Out(viol='left pressed: %s' % sorted(held_out(r.got) - held_out(r.exp)))
        sig = [(tuple(sorted((d.get('fail', 0), str(devmap[d['i']])) for d in case['devs'])), len(r.got))]
        return Out(sig=sig, counts={'outputs': len(r.got), 'captures': len(first), 'removals': len(gone), 'devices': len(case['devs'])})


class ConfSet:
    """A random set of config files for devices with distinct vendor ids, and which config captures which device."""

    def __init__(self, rng, keys, devs, kinds, n=None, wild=0.7, bad=0.05, **kw):
        self.rng = rng
        n = n or rng.choice([1, 1, 2, 3])
        names = rng.sample(['a.conf', 'b.conf', 'default.conf', 'k1.conf', 'z.conf'], n)
        self.files, self.tmos = {}, []
        ids = {x: [] for x in names}
        wildcard = rng.choice(names) if rng.random() < wild else None
        if wildcard:
            ids[wildcard].append('*')
        owner, fallback = {}, {}
        for d in devs:
            v = '%04x:0001' % d['vendor']
            x = rng.random()
            if wildcard and kinds[d['i']] not in ('mouse', 'tablet'):
                fallback[d['i']] = wildcard
            if x < 0.4:
                o = rng.choice(names)
                ids[o].append(v)
                owner[d['i']] = o
            elif x < 0.55 and wildcard:
                ids[wildcard].insert(0, '-' + v)
                fallback.pop(d['i'], None)
        good = []
        for x in sorted(names):
            c = Conf(rng, keys, glob=rand_glob(rng, 0.15), **kw)
            c.ids = '\n'.join(ids[x])
            t = c.text()
            if rng.random() < bad:
                t = 'oops = 1\n' + t
            else:
                good.append(x)
                self.tmos += c.timeouts()
            self.files[x] = t
        self.good = good
        self.devmap = {}
        for d in devs:
            o = owner.get(d['i'])
            if o not in good:
                o = fallback.get(d['i'])
            if o in good:
                self.devmap[d['i']] = good.index(o)
            else:
                self.devmap[d['i']] = 'ext' if kinds[d['i']] in ('mouse', 'tablet', 'both', 'touchkbd') else None

    def configs(self):
        return [spec.Config(self.files[x]) for x in self.good]


@check
class D03(fw.Check):
    id = 'D03'
    quick, thorough = 9000, 90000
    technique = 'runtime monitoring: output and grab requests of the real daemon (ASan+UBSan) across reloads at arbitrary moments, against the executable specification restarted from scratch on the new files'
    level_note = 'random histories and file sets; not exhaustive'
    rule = ('1-4 reloads at random moments (keys held, decisions pending, layers on, binds made, devices coming) with random replacement of the set of config files, 2-4 devices, typing before and after; evaluations = reloads; '
            'distinct = (what was pending, devices gained/lost) combinations; oracle: all output keys released, capture = matching of the new files, later output = fresh specification')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'capslock', 'leftshift', 'space'], rng.randrange(2, 5))
        kinds = ['kbd', rng.choice(['kbd', 'kbd', 'both', 'volume'])] + [rng.choice(['mouse', 'kbd', 'small', 'tablet', 'virtual'][:4]) for _ in range(rng.randrange(0, 3))]
        w = World(rng, keys, lambda: 0)
        for k in kinds:
            w.add_dev(k, True, vendor=len(w.devs) + 1)
        sets = [ConfSet(rng, keys + ['leftmouse', 'volumeup'], w.devs, kinds, depth=1) for _ in range(rng.choice([2, 2, 3, 5]))]
        w.delay = delays(rng, sum((s.tmos for s in sets), []) or [50])
        w.t = 100000
        ipc, cid = {}, 0
        for k, s in enumerate(sets):
            for _ in range(rng.randrange(4, 35)):
                w.step()
                if rng.random() < 0.06:
                    cid += 1
                    w.ev += ipcutil.request(cid, w.t, ipcutil.BIND, 'a = f20')
                    ipc[cid] = ('bind', 'a = f20')
                else:
                    w.stroke()
            if k + 1 == len(sets):
                break
            w.t += rng.choice([0, 1, 1000, 30000])
            nxt = sets[k + 1]
            gain = [d for d in w.live if isinstance(nxt.devmap[d], int) and not isinstance(s.devmap[d], int)]
            wait = rng.random() < 0.3
            if not wait:
                w.delay, f = (lambda: rng.choice([0, 5000])), w.delay
                w.release_all(gain)
                w.delay = f
                w.t += rng.choice([0, 1000, 100000])
            for x in s.files:
                if x not in nxt.files:
                    w.put('unlink etc/keyd/' + x)
            for x, t in nxt.files.items():
                w.put('write etc/keyd/%s %s' % (x, payload(t)))
            w.t += 1
            cid += 1
            w.ev += ipcutil.request(cid, w.t, ipcutil.RELOAD)
            ipc[cid] = ('reload',)
            if wait:
                for d in gain:
                    for c in sorted(w.held[d]):
                        w.t += rng.choice([100, 30000, 200000])
                        w.ev.append([w.t, d, c, 0])
                    w.held[d].clear()
            w.t += 2000
        w.t += 1000
        w.release_all()
        w.t += 6000000
        return dict(confs=sets[0].files, devs=w.devs, devmap=sets[0].devmap, ipc=ipc, sets=[(s.files, s.good, s.devmap) for s in sets], ev=w.events(), end=w.t)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        sets = [([spec.Config(f[x]) for x in good], {int(a): b for a, b in dm.items()}) for f, good, dm in case['sets']]
        r = engine.run(ctx, dict(case, devmap=sets[0][1]), cfgs=sets[0][0], ipc=ipcutil.table(case), reloads=sets[1:])
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.res.died():
            return Out(viol=r.why)
        asked = {int(e[1].split()[1]): e[0] for e in case['ev'] if isinstance(e[1], str) and e[1].startswith('conn')}
        for f in r.res.lines:
            if f[0] == 'CA' and int(f[1]) > asked[int(f[2])] + 1500 and ipcutil.table(case)[int(f[2])][0] == 'reload':
                return Out(inconclusive='busy when asked to reload')
        if r.why:
            return Out(viol=r.why)
        cur, k = set(), 0
        rel = [c for c, v in sorted(ipcutil.table(case).items()) if v[0] == 'reload']
        outs = set()
        sig = set()
        started = False
        for f in r.res.lines:
            if f[0] == 'G' and int(f[2]) < 100:
                (cur.add if f[3] == '1' else cur.discard)(int(f[2]))
            elif f[0] == 'P' and not started:
                started = True
                want = {d for d, v in sets[0][1].items() if isinstance(v, int)}
                if cur != want:
                    return Out(viol='at start devices %s are captured, the files match %s' % (sorted(cur), sorted(want)))
                sig.add((len(want), 0))
            elif f[0] == 'O' and f[3] == '1':
                (outs.add if f[5] != '0' else outs.discard)((f[2], f[4]))
            elif f[0] == 'CR' and int(f[2]) in rel:
                k = rel.index(int(f[2])) + 1
                typ, data = ipcutil.parse(bytes.fromhex(f[3]))
                if typ != ipcutil.SUCCESS:
                    return Out(viol='reload was refused: %r' % data)
                want = {d for d, v in sets[k][1].items() if isinstance(v, int)}
                if cur != want:
                    return Out(viol='after reload %d devices %s are captured, the new files match %s' % (k, sorted(cur), sorted(want)))
                if outs:
                    return Out(viol='after reload %d these keys are still pressed: %s' % (k, sorted(outs)))
                sig.add((len(want), k, tuple(sorted(case['sets'][k][0]))))
        if k != len(rel):
            return Out(viol='%d of %d reloads were answered' % (k, len(rel)))
        return Out(sig=sig, n=len(rel), counts={'reloads': len(rel), 'outputs': len(r.got), 'binds': len(case['ipc']) - len(rel)})



def rand_bind(rng, c, keys, wrong=0.15):
    """a random bind expression for the layers of Conf c"""
    lays = ['main', 'main'] + c.layers + c.layouts + ['shift', 'control'] + c.comps
    l = rng.choice(lays)
    k = rng.choice(keys)
    x = rng.random()
    if x < 0.12 and len(keys) > 1:
        k = '+'.join(rng.sample(keys, 2))
    elif x < 0.2:
        k = rng.choice(['shift', 'control', 'meta', 'alt'])
    a = c.action(layer=l if l in c.layers else None)
    sp = rng.choice([' = ', '=', ' =  ', '= '])
    e = (l + '.' if l != 'main' or rng.random() < 0.5 else '') + k + sp + a
    if rng.random() < wrong:
        e = rng.choice(['%s%snope(1)' % (k, sp), 'nolayer.%s%sa' % (k, sp), 'nokey%sa' % sp, '%s%slayer(nolayer)' % (k, sp), '%s%s' % (k, sp.strip()), '%s%soverload(shift)' % (k, sp),
                        '%s%stimeout(a, 10)' % (k, sp), '', '=', 'main.%s%s' % (k, sp), '%s%sab' % (k, sp), '%s%sC-' % (k, sp), 'resetx', ' reset'])
    return e


@check
class D04(fw.Check):
    id = 'D04'
    quick, thorough = 12100, 121000
    technique = 'runtime monitoring: differential runs of the real daemon (ASan+UBSan): bind requests versus the same lines appended to the files, and interleaved binds against the executable specification; replies checked'
    level_note = 'random configs, expressions and histories; not exhaustive'
    rule = ('random configs (1-2 files) x sequences of 1-12 bind expressions over all actions, layers, composite layers, chords and aliases (15% wrong ones), resets, interleaved with typing; evaluations = runs; distinct = output signatures; '
            'oracle A: output after the binds equals that of a daemon whose files end with the accepted lines; oracle B: interleaved binds and resets equal the specification; a wrong expression is refused and changes nothing')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'space', 'leftshift', 'leftcontrol'], rng.randrange(3, 6))
        cs = [Conf(rng, keys, depth=2, glob=rand_glob(rng, 0.2), chords=rng.choice([0, 0, 0.3])) for _ in range(rng.choice([1, 1, 1, 2]))]
        cs[0].ids = '*'
        if len(cs) > 1:
            cs[1].ids = '0002:0001'
        mode = rng.choice(['A', 'A', 'B', 'B', 'B'])
        exps = [rand_bind(rng, rng.choice(cs), keys) for _ in range(rng.randrange(1, 13))]
        devs = [dict(i=0)] + ([dict(i=1, vendor=2)] if len(cs) > 1 else [])
        ty = Typist(rng, t=100000)
        d = delays(rng, sum((c.timeouts() for c in cs), []) or [50])
        ev, ipc = [], {}
        ndev = len(devs)
        if rng.random() < 0.3:
            # somebody listens to the layers meanwhile
            for k in range(rng.choice([1, 1, 2])):
                ev += ipcutil.request(900 + k, ty.t, ipcutil.LISTEN)
                ipc[900 + k] = ('listen',)
            ty.t += 5000
        if mode == 'A':
            if rng.random() < 0.3:
                exps.insert(rng.randrange(len(exps) + 1), 'reset')
            for k, e in enumerate(exps):
                ev += ipcutil.request(k + 1, ty.t, ipcutil.BIND, e)
                ipc[k + 1] = ('bind', e)
                ty.t += 2000
            ty.t += 20000
            for _ in range(rng.randrange(1, 3)):
                ty.dev = rng.randrange(ndev)
                ty.random(keys, rng.randrange(10, 40), d, maxheld=5, prel=0.5)
                ty.release_all(d)
                ty.t += 5000000
        else:
            for k, e in enumerate(exps):
                ty.dev = rng.randrange(ndev)
                ty.random(keys, rng.randrange(0, 12), d, maxheld=5, prel=0.5)
                if rng.random() < 0.15:
                    e = 'reset'
                ty.t += d()
                ev += ipcutil.request(k + 1, ty.t, ipcutil.BIND, e)
                ipc[k + 1] = ('bind', e)
                ty.t += rng.choice([0, 0, 1, 1000])
            ty.random(keys, rng.randrange(4, 20), d)
            ty.release_all(d)
        return dict(mode=mode, confs={'c%d.conf' % k: c.text() for k, c in enumerate(cs)}, devs=devs, devmap={str(k): k for k in range(ndev)},
                    ipc=ipc, ev=sorted(ev + ty.ev, key=lambda e: e[0]), end=ty.t + 5000000)

    def run_case(self, ctx, case):
        ipc = ipcutil.table(case)
        r = engine.run(ctx, case, ipc=ipc)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        ok = {}
        for f in r.res.lines:
            if f[0] == 'CR' and int(f[2]) < 900:
                typ, data = ipcutil.parse(bytes.fromhex(f[3]))
                if int(f[2]) in ok:
                    return Out(viol='request %r was answered twice' % (ipc[int(f[2])],))
                ok[int(f[2])] = typ == ipcutil.SUCCESS
        asked = [int(f[2]) for f in r.res.lines if f[0] == 'CA' and int(f[2]) < 900]
        for cid, want in r.model.replies:
            if cid in asked and ok.get(cid) != want:
                return Out(viol='bind %r was answered %s' % (ipc[cid][1], {True: 'success', False: 'failure', None: 'not at all'}[ok.get(cid)]))
        n = 1
        if case['mode'] == 'A':
            lines, first = [], []
            for cid in sorted(x for x in ipc if x < 900):
                e = ipc[cid][1]
                if e == 'reset':
                    lines = []
                elif ok.get(cid):
                    lines.append(e)
            confs = {}
            for name, t in case['confs'].items():
                layers = {l.name for l in spec.Config(t).layers}
                add = ''
                for e in lines:
                    dot, par, eq = e.find('.'), e.find('('), e.find('=')
                    l, x = 'main', e
                    if dot > 0 and (par < 0 or dot < par):
                        l, x = e[:dot], e[dot + 1:]
                    if l not in layers:
                        continue        # only the other config has it
                    add += '[%s]\n%s\n' % (l, x)
                confs[name] = t + add
            if all(spec.Config(t).ok and not [b for b in spec.Config(t).bad] for t in confs.values()) or True:
                ev = [e for e in case['ev'] if not isinstance(e[1], str)]
                r2 = ctx.run(engine.scenario(dict(case, confs=confs, ev=ev)))
                if r2.inconclusive():
                    return Out(inconclusive='harness')
                if r2.died():
                    return Out(viol=r2.died())
                a, b = model.outputs(r.res.lines)[0], model.outputs(r2.lines)[0]
                n = 2
                why = model.same(b, a)
                if why:
                    if len(confs) > 1:
                        return Out(inconclusive='order of coinciding timeouts')
                    return Out(viol='bound at run time versus in the file: ' + why + '; lines %s' % lines)
        return Out(sig=[(case['mode'], len(case['confs']), tuple(ok.values()), tuple((o[3], o[4]) for o in r.got))], n=n,
                   counts={'binds accepted': sum(ok.values()), 'binds refused': len(ok) - sum(ok.values()), 'outputs': len(r.got)})


def received(lines):
    """client -> bytes, in order"""
    got = {}
    for f in lines:
        if f[0] == 'CR':
            got[int(f[2])] = got.get(int(f[2]), b'') + bytes.fromhex(f[3])
    return got


def layer_line(kb, idx, on):
    l = kb.config.layers[idx]
    return ('/' if l.kind == 'layout' else '+' if on else '-') + l.name


@check
class D05(fw.Check):
    id = 'D05'
    quick, thorough = 7600, 76000
    technique = 'runtime monitoring: bytes received by every listener of the real daemon (ASan+UBSan) compared line by line with the layer events of the executable specification, and replayed into a layer set'
    level_note = 'random histories with up to 32 listeners; not exhaustive'
    rule = ('random configs of layer keys of every kind, layouts and chords on 1-2 keyboards, listeners joining, leaving, half-closing or not reading at random moments, binds and reloads in between; evaluations = listeners judged; '
            'distinct = received streams; oracle: snapshot + one line per change in order (a prefix for those which stall or leave), and replaying the lines gives the active layers at every end')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'space', 'leftshift', 'leftcontrol'], rng.randrange(3, 7))
        w = dict(key=1, layer=4, oneshot=3, toggle=3, swap=1, overload=2, overloadt=1, overloadt2=1, lettermod=0.5, timeout=0.7, setlayout=2, clear=1, layerm=1, togglem=0.5, oneshotm=0.5, clearm=0.2, macro=0.5, macro2=0.3)
        two = rng.random() < 0.2
        name = None
        if rng.random() < 0.15:
            # up to the longest name a section may have, room being left for its type
            top = rng.choice([30, 31, 40, 56])
            name = lambda l: l + '_' * (rng.choice([28, 29, 30, 31, 32, top]) - len(l))
        cs = [Conf(rng, keys, w=w, depth=1, nlayouts=rng.choice([0, 1, 2]), glob=rand_glob(rng, 0.2), chords=rng.choice([0, 0, 0.3]), name=name,
                   moded=0 if name and top > 40 else 0.5) for _ in range(2 if two else 1)]
        if name:
            for c in cs:
                if rng.random() < 0.5 and not c.mods[c.layers[0]]:
                    # exactly the longest
                    c.rename(c.layers[0], c.layers[0] + 'x' * (64 - len(c.layers[0])))
        cs[0].ids = '*'
        if rng.random() < 0.2 and cs[0].layouts:
            cs[0].glob['default_layout'] = rng.choice(cs[0].layouts)
        if two:
            cs[1].ids = '0002:0001'
        for k, c in enumerate(cs):
            c.ids += '\n%04x:0001' % (0x30 + k)
        mice = [rng.randrange(len(cs)) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        long_ = rng.random() < 0.12       # enough lines to fill the buffer of a stalled listener
        d = delays(rng, sum((c.timeouts() for c in cs), []) or [50])
        ty = Typist(rng, t=100000)
        ev, ipc, cid = [], {}, 0
        live = []
        nlay = 0
        confs = {'c%d.conf' % k: c.text() for k, c in enumerate(cs)}
        sets = []
        for _ in range(rng.randrange(6, 25)):
            x = rng.random()
            if x < 0.45 and len(live) < 30:
                cid += 1
                ev += ipcutil.request(cid, ty.t, ipcutil.LISTEN)
                ipc[cid] = ('listen',)
                live.append(cid)
                y = rng.random()
                if y < 0.15 or (long_ and y < 0.4):
                    ev.append([ty.t + 1, 'noread %d' % cid])
                elif y < 0.25:
                    ev.append([ty.t + 1, 'shut %d' % cid])
            elif x < 0.6 and live:
                c = rng.choice(live)
                live.remove(c)
                ev.append([ty.t, 'close %d' % c])
            elif x < 0.66:
                cid += 1
                e = rng.choice(['reset', '%s = toggle(%s)' % (rng.choice(keys), rng.choice(cs[0].layers or ['shift']))])
                ev += ipcutil.request(cid, ty.t, ipcutil.BIND, e)
                ipc[cid] = ('bind', e)
            elif x < 0.69:
                cid += 1
                ev += ipcutil.request(cid, ty.t, ipcutil.RELOAD)
                ipc[cid] = ('reload',)
                sets.append(1)
            ty.t += rng.choice([0, 1000, 60000])
            ty.dev = rng.randrange(len(cs))
            ty.random(keys, rng.randrange(0, 14), d, maxheld=5)
            if mice and rng.random() < 0.5:
                m = rng.randrange(len(mice))
                ty.t += 1000
                ty.ev.append([ty.t, 'ev %d 2 %d %d' % (2 + m, rng.choice([0, 1, 8, 6]), rng.choice([1, -1, 5]))])
        if long_:
            for _ in range(700):
                ty.tap(rng.choice(keys), hold=rng.choice([1000, 30000]))
                ty.t += 1000
        if rng.random() < 0.7:
            ty.release_all(d)
        return dict(confs=confs, devs=[dict(i=0)] + ([dict(i=1, vendor=2)] if two else []) + [dict(i=2 + m, vendor=0x30 + k, key=sim.MOUSE_KEYS, rel='0,1,6,8', name='mouse') for m, k in enumerate(mice)],
                    devmap={**{str(k): k for k in range(len(cs))}, **{str(2 + m): k for m, k in enumerate(mice)}}, ipc=ipc, nreload=len(sets),
                    ev=sorted(ev + ty.ev, key=lambda e: e[0]), end=ty.t + 3000000)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        names = sorted(case['confs'])
        dm = {int(k): v for k, v in case['devmap'].items()}
        reloads = [([spec.Config(case['confs'][n]) for n in names], dm) for _ in range(case['nreload'])]
        r = engine.run(ctx, case, ipc=ipcutil.table(case), reloads=reloads)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.res.died():
            return Out(viol=r.why)
        if r.why:
            if len(names) > 1 or any(f[0] in ('BLOCKED', 'TMO') for f in r.res.lines):
                pass
            else:
                return Out(viol=r.why)
        changes = [(t, kb, idx, on) for t, kb, idx, on in r.model.sink.layers]
        got = received(r.res.lines)
        closed = {int(f[2]): int(f[1]) for f in r.res.lines if f[0] == 'CZ'}
        left, unread = {}, set()
        for e in case['ev']:
            if isinstance(e[1], str):
                x = e[1].split()
                if x[0] == 'close':
                    left[int(x[1])] = e[0]
                elif x[0] == 'noread':
                    unread.add(int(x[1]))
        reloads_at = [int(f[1]) for f in r.res.lines if f[0] == 'CZ' and ipcutil.table(case).get(int(f[2]), ('',))[0] == 'reload']
        sig, n, dropped = set(), 0, 0
        if r.why:
            return Out(inconclusive='order of coinciding timeouts')
        for cid, at, snap, pos in r.model.snapshots:
            exp = [(at, l) for l in snap] + [(t, layer_line(kb, idx, on)) for t, kb, idx, on in changes[pos:]]
            text = ''.join(l + '\n' for _, l in exp)
            g = got.get(cid, b'').decode('utf-8', 'replace')
            n += 1
            if not text.startswith(g):
                k = next((k for k in range(len(g)) if k >= len(text) or g[k] != text[k]), 0)
                return Out(viol='listener %d: expected ...%r, received ...%r' % (cid, text[max(0, k - 40):k + 40], g[max(0, k - 40):k + 40]))
            if cid in left or cid in unread:
                if cid in left and cid not in unread:
                    need = ''.join(l + '\n' for t, l in exp if t < left[cid] - 60000)
                    if len(g) < len(need) and not self.slow(r, left[cid]):
                        return Out(viol='listener %d, which left at %d us, missed %r' % (cid, left[cid], need[len(g):][:60]))
                if cid in closed:
                    dropped += 1
                continue
            if g != text:
                return Out(viol='listener %d missed %r' % (cid, text[len(g):][:80]))
            if cid in closed and case['end'] - closed[cid] > 1000:
                return Out(viol='listener %d, which reads everything, was dropped at %d us' % (cid, closed[cid]))
            sig.add(g)
            if len(names) == 1 and not any(t >= at for t in reloads_at) and snap:
                on = set()
                lay = None
                for l in g.split('\n')[:-1]:
                    if l[0] == '/':
                        lay = l[1:]
                    else:
                        (on.add if l[0] == '+' else on.discard)(l[1:])
                kb = r.model.kbds[0]
                want = {l.name for l, st in zip(kb.config.layers, kb.st) if st.active and l.kind != 'layout'}
                if on != want:
                    return Out(viol='replaying the lines of listener %d gives %s, active are %s' % (cid, sorted(on), sorted(want)))
                wl = next((l.name for l, st in zip(kb.config.layers[1:], kb.st[1:]) if st.active and l.kind == 'layout'), 'main')
                if lay != wl:
                    return Out(viol='according to the lines of listener %d the layout is %s, but it is %s' % (cid, lay, wl))
        return Out(sig=sig, n=n, counts={'listeners': n, 'layer changes': len(changes), 'dropped or left': dropped, 'lines received': sum(g.count(b'\n') for g in got.values())})

    @staticmethod
    def slow(r, t):
        return any(f[0] in ('TMO',) and int(f[1]) <= t for f in r.res.lines)
