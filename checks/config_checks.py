"""C01-C06: what the text of a config means."""
import os, random, re, shutil, subprocess, tempfile, unicodedata
import fw, engine, gen, ipcutil, model, sim, spec, unidata
from fw import Out
from gen import Conf, Typist, delays, rand_glob
from daemon_checks import shrink_strokes
from daemon2_checks import decode, COMPOSE, CANCEL, US

C = spec.NAMES
CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


def typing(rng, keys, tmos, n=None, dev=0):
    ty = Typist(rng, t=100000, dev=dev)
    d = delays(rng, tmos or [50])
    ty.random(keys, n or rng.randrange(15, 60), d, maxheld=5)
    ty.release_all(d)
    return ty


def differ(a, b):
    """outputs of two runs which should behave alike"""
    return None if a == b else model.same(a, b)


class Meta(fw.Check):
    """case: confs + files (reference), alts: list of {'confs':..., 'files':...} which must behave the same, say: strings the log must contain"""
    level_note = 'random configs, spellings and histories; not exhaustive'

    def shrink(self, case):
        if len(case['alts']) > 1:
            for a in case['alts']:
                yield dict(case, alts=[a])
        yield from shrink_strokes(case)

    def run_case(self, ctx, case):
        r = engine.run(ctx, dict(case, ipc=None), ipc=ipcutil.table(case))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol='reference text: ' + r.why)
        n = 0
        for a in case['alts']:
            x = dict(case, **a)
            q = ctx.run(engine.scenario(x))
            if q.inconclusive():
                return Out(inconclusive='harness')
            if q.died():
                return Out(viol=q.died() + '; text %r' % (a,))
            why = differ(r.got, model.outputs(q.lines)[0])
            if why:
                return Out(viol='%s: %s' % (self.what, why))
            log = q.stdout + q.stderr
            for s in case.get('say', []):
                if s not in log:
                    return Out(viol='%r is not reported' % s)
            n += 1
        return Out(sig=[(tuple(sorted(case['confs'].values())), tuple((o[3], o[4]) for o in r.got))], n=n, counts={'texts compared': n, 'outputs': len(r.got)})


@check
class C01(Meta):
    id = 'C01'
    quick, thorough = 4500, 60000
    what = 'with include instead of the pasted text'
    technique = 'runtime monitoring: metamorphic runs of the real daemon (ASan+UBSan): included files versus pasted text under the same typing, the pasted run also against the executable specification; diagnostics looked up in the log'
    rule = ('random configs cut into 1-4 included pieces (inside sections, whole sections, empty, without final newline; in the config directory, the data directory or both with a decoy), plus includes which must be ignored (missing, with extension, parent paths, directories, nested); '
            'evaluations = texts compared; distinct = (config, output); oracle: same timed output as the pasted text, ignored ones are reported')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'leftshift', 'leftcontrol'], rng.randrange(3, 6))
        c = Conf(rng, keys, depth=1, chords=rng.choice([0, 0.3]), glob=rand_glob(rng, 0.15))
        L = c.text().rstrip('\n').split('\n')
        if rng.random() < 0.2:
            L += ['# a comment', '']
        ref = '\n'.join(L) + '\n'
        alts, say = [], []
        for _ in range(2):
            files, say1 = {}, []
            cuts = sorted(rng.sample(range(2, len(L) + 1), min(len(L) - 1, rng.choice([2, 2, 4, 6, 8])) & ~1))
            out, at = [], 0
            names = rng.sample(['common', 'layouts/one', 'x', 'my_keys', 'sub/dir/f', 'include', 'x-y'], 4)
            for a, b in zip(cuts[::2], cuts[1::2]):
                out += L[at:a]
                at = b
                name = names.pop()
                text = '\n'.join(L[a:b])
                if rng.random() < 0.6 and b > a:
                    text += '\n'
                if rng.random() < 0.15:
                    # nested includes are not expanded
                    sep = '' if not text or text.endswith('\n') else '\n'
                    text += sep + 'include nest'
                    files['etc/keyd/nest'] = '[main]\n' + ''.join('%s = f20\n' % k for k in keys)
                if rng.random() < 0.12:
                    # long files, up to what a file may hold
                    sep = '' if not text or text.endswith('\n') else '\n'
                    pad = ''.join('#%s\n' % ('x' * rng.randrange(0, 200)) for _ in range(rng.choice([20, 45, 90, 150])))
                    text = text + sep + pad if rng.random() < 0.3 else pad + text
                x = rng.random()
                if x < 0.5:
                    files['etc/keyd/' + name] = text
                    if rng.random() < 0.5:
                        files['share/keyd/' + name] = '[main]\n' + ''.join('%s = f21\n' % k for k in keys)
                else:
                    files['share/keyd/' + name] = text
                out.append('include ' + rng.choice(['', '', ' ', '   ']) + name)
            out += L[at:]
            if rng.random() < 0.4:
                junk = '[main]\n' + ''.join('%s = f22\n' % k for k in keys)
                bad, f = rng.choice([('missing', None), ('some.inc', 'etc/keyd/some.inc'), ('layouts/us.conf', 'share/keyd/layouts/us.conf'), ('../evil', 'etc/evil'), ('../../evil', 'evil'), ('./dot', 'etc/keyd/dot'), ('adir', 'etc/keyd/adir/file'), ('asock', None)])
                if f:
                    files[f] = junk
                out.insert(rng.randrange(2, len(out) + 1), 'include ' + bad)
                if bad != 'adir':
                    say1.append(bad)
            socks = ['etc/keyd/asock'] if 'include asock' in out else []
            alts.append(dict(confs={'c.conf': '\n'.join(out) + ('\n' if rng.random() < 0.7 else '')}, files=files, say=say1, socks=socks))
        ty = typing(rng, keys, c.timeouts())
        return dict(confs={'c.conf': ref}, alts=alts, ev=ty.ev, end=ty.t + 5000000)

    def run_case(self, ctx, case):
        tot = Out(n=0)
        for a in case['alts']:
            o = Meta.run_case(self, ctx, dict(case, alts=[a], say=a.get('say', [])))
            if o.viol or o.inconclusive:
                return o
            tot = Out(sig=o.sig, n=tot.n + o.n, counts={k: v + tot.counts.get(k, 0) for k, v in o.counts.items()})
        return tot


ALT = {}
for _c, (_n, _a, _s) in spec.KEYS.items():
    if _n and _a and C.get(_a) == _c and C.get(_n) == _c:
        ALT[_n], ALT[_a] = _a, _n


def respell_key(rng, k):
    return ALT[k] if k in ALT and rng.random() < 0.5 else k


def respell_action(rng, a):
    m = re.fullmatch(r'((?:[CSAMG]-)*)(\w+|.)', a)
    if not m:
        return a
    mods, k = m.groups()
    k2 = respell_key(rng, k)
    ms = mods.split('-')[:-1]
    rng.shuffle(ms)
    code = C.get(k)
    if 'S' in ms and code and spec.KEYS[code][2] and rng.random() < 0.5 and spec.SHIFTED.get(spec.KEYS[code][2]) == code:
        ms.remove('S')
        k2 = spec.KEYS[code][2]
    return ''.join(x + '-' for x in ms) + k2


def emit(rng, sections, plain=False):
    """sections: [(header, [(lhs, rhs)])] -> text in a random style"""
    out = []

    def noise():
        while rng.random() < 0.15:
            out.append(rng.choice(['', '', '   ', '# comment', '  # [main]', '#a = b', '\t']))
    for h, ents in sections:
        noise()
        ind = rng.choice(['', '', '  ', '\t'])
        out.append(ind + '[%s]' % h + rng.choice(['', '', ' ', '\t ']))
        for l, r in ents:
            noise()
            ind = rng.choice(['', '', '    ', '\t', ' \t '])
            if r is None:
                s = l
            else:
                sp = lambda: rng.choice(['', ' ', ' ', '  ', '\t', ' \t'])
                s = l + sp() + '=' + sp() + r
            out.append(ind + s + rng.choice(['', '', '', ' ', '\t', '   ', '\r']))
    noise()
    return '\n'.join(out) + rng.choice(['\n', '\n', '', '\n\n\n'])


def sections_of(c):
    S = [['ids', [(x, None) for x in c.ids.split('\n')]]]
    if c.glob:
        S.append(['global', [(k, str(v)) for k, v in c.glob.items()]])
    for l in ['main'] + c.layers + c.layouts + [x for x in ('shift', 'control') if x in c.body] + c.comps:
        typ = ':' + c.mods[l] if c.mods.get(l) else ':layout' if l in c.layouts else ''
        S.append([l + typ, [tuple(x) for x in c.body[l]]])
    return S


def restyle(rng, S, junk):
    """an equivalent list of sections: split, reordered, with overridden entries and other names"""
    head = {h: h.split(':')[0] for h, _ in S}
    parts = []      # (name, header, entries)
    for h, ents in S:
        ents = [(respell_key(rng, l) if r is not None else l, respell_action(rng, r) if r is not None and h not in ('ids', 'global') else r) for l, r in ents]
        order = list(ents)
        # order matters only between bindings of the same key
        if h != 'ids' and rng.random() < 0.6:
            rng.shuffle(order)
            by = {}
            for e in ents:
                by.setdefault(keyid(e[0]), []).append(e)
            order = [by[keyid(e[0])].pop(0) for e in order]
        ents = []
        for e in order:
            if h not in ('ids', 'aliases') and e[1] is not None and rng.random() < 0.2 and not (h == 'global' and e[0] == 'default_layout'):
                ents.append((e[0], rng.choice(junk) if h != 'global' else str(rng.randrange(1, 500))))
            ents.append(e)
        k = 1
        if h not in ('ids',) and rng.random() < 0.4:
            k = rng.randrange(2, 4)
        cuts = sorted(rng.randrange(0, len(ents) + 1) for _ in range(k - 1))
        for n, (a, b) in enumerate(zip([0] + cuts, cuts + [len(ents)])):
            name = head[h]
            parts.append([name, h if n == 0 or rng.random() < 0.3 else name if rng.random() < 0.7 or '+' in name or name in ('ids', 'global', 'aliases') else name + ':' + rng.choice(['C', 'layout', 'S']), ents[a:b]])
    # a random order which keeps pieces of one section in order, and composites after their constituents
    comps = [n for n in head.values() if '+' in n]
    if len(comps) <= 1 and rng.random() < 0.6:
        for _ in range(20):
            keyed = [(rng.random(), p) for p in parts]
            groups = {}
            for p in parts:
                groups.setdefault(p[0], []).append(p)
            order = [p[0] for _, p in sorted(keyed, key=lambda x: x[0])]
            new = [groups[n].pop(0) for n in order]
            first = {}
            for k, p in enumerate(new):
                first.setdefault(p[0], k)
            if all(first[x] < first[n] for n in comps for x in n.split('+') if x in first) and all(not p[1].count(':') or first[p[0]] == k or p[0] == p[1] or True for k, p in enumerate(new)):
                parts = new
                break
    return [(p[1], p[2]) for p in parts]


def keyid(l):
    return frozenset(C.get(x, x) for x in l.split('+')) if '+' in l else C.get(l, l)


@check
class C02(Meta):
    id = 'C02'
    quick, thorough = 7500, 75000
    what = 'spelt differently'
    technique = 'runtime monitoring: metamorphic runs of the real daemon (ASan+UBSan): equivalent spellings of a config under the same typing, the plain spelling also against the executable specification'
    rule = ('random configs with chords, composites, layouts and globals, each in 2 random equivalent spellings (indentation, blanks, comments, CR, no final newline, spacing of =, other names of keys, shifted names, split and reordered sections, reordered bindings, overridden earlier bindings); '
            'evaluations = texts compared; distinct = (config, output); oracle: same timed output')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'leftshift', 'leftcontrol', 'esc', 'minus', 'enter', 'comma', 'slash', 'grave', 'leftbrace'], rng.randrange(3, 7))
        out = gen.SYM + [']'] * 12 * ('leftbrace' in keys) + [x for x in ALT if C[x] < 120 and x not in ('(', ')', ',', '#', '\\')][:40]
        c = Conf(rng, keys, depth=1, chords=rng.choice([0, 0.3]), glob=rand_glob(rng, 0.2), out=out)
        if c.layouts and rng.random() < 0.3:
            c.glob['default_layout'] = rng.choice(c.layouts)
        junk = ['f20', 'noop', 'layer(shift)', 'macro(j u n k)', 'overload(control, z)', 'C-z', 'command(junk)', 'toggle(shift)', 'notanaction(', '']
        S = sections_of(c)
        alts = [dict(confs={'c.conf': emit(rng, restyle(rng, S, junk))}) for _ in range(2)]
        ty = typing(rng, keys, c.timeouts())
        return dict(confs={'c.conf': c.text()}, alts=alts, ev=ty.ev, end=ty.t + 5000000)


@check
class C03(Meta):
    id = 'C03'
    quick, thorough = 12000, 120000
    what = 'with aliases instead of key names'
    technique = 'runtime monitoring: metamorphic runs of the real daemon (ASan+UBSan): configs and runtime bindings written with aliases versus written out for every key, under the same typing; the written-out run also against the executable specification'
    rule = ('random alias sections (own names, names of keys, names of built-in aliases, reassigned and shared aliases) and bindings on them in every layer and by bind; evaluations = texts compared; distinct = (config, output); oracle: same timed output as with the bindings repeated for each key')

    def case(self, rng, i, tier):
        phys = rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'capslock', 'leftshift', 'rightshift', 'leftmeta', 'rightmeta', 'leftalt', 'rightalt', 'leftcontrol', 'rightcontrol', 'esc'], rng.randrange(5, 10))
        names = rng.sample(['foo', 'bar', 'k', 'x', 'esc', 'j', 'shift', 'meta', 'nav', 'a', 'capslock', 'm1'] + ['leftshift', 'leftmeta', 'rightalt', 'leftcontrol', 'enter', 'f13', '1', '-', 'semicolon'] * (rng.random() < 0.4), 4)
        cur = dict(spec.DEFAULT_ALIASES)
        asec, defaults = [], []
        for _ in range(rng.choice([0, 2, 4, 7])):
            k, n = rng.choice(phys), rng.choice(names)
            asec.append((k, n))
            cur[C[k]] = n
            if n in C:
                defaults.append((k, n))
        holders = {}
        for code, n in cur.items():
            holders.setdefault(n, []).append(spec.NAME[code])
        lhs = rng.sample(sorted(holders), min(len(holders), rng.randrange(2, 6))) + rng.sample(phys, 2)
        lhs = [k for k in lhs if k in C or k in holders]
        c = Conf(rng, lhs, depth=1, glob=rand_glob(rng, 0.15), moded=0.6)
        S = sections_of(c)
        expand = lambda l: holders.get(l) or [l]
        # defaults come first, in order
        ref = S[:1] + ([S[1]] if c.glob else []) + [['main', [(k, n) for k, n in defaults]]] + [[h, [(x, r) for l, r in e for x in sorted(expand(l), key=lambda x: C[x])]] for h, e in S[(2 if c.glob else 1):]]
        alt = S[:1] + [['aliases', asec]] + S[1:]
        if rng.random() < 0.5:
            alt = S + [['aliases', asec]]
        t = lambda S: '\n'.join('[%s]\n' % h + ''.join((l + ' = ' + r if r is not None else l) + '\n' for l, r in e) for h, e in S)
        ty = Typist(rng, t=100000)
        d = delays(rng, c.timeouts() or [50])
        ev1, ev2, ipc, cid = [], [], {}, 0
        for _ in range(rng.randrange(1, 4)):
            ty.random(phys, rng.randrange(8, 30), d, maxheld=5)
            if rng.random() < 0.5:
                ty.release_all(d)
                ty.t += 3000000
                l = rng.choice(lhs)
                lay = rng.choice(['', 'main.'] + [x + '.' for x in c.layers])
                a = c.action(simple=True)
                x = expand(l)
                cid += 10
                for n, k in enumerate(x):
                    e = '%s%s = %s' % (lay, k, a)
                    ev1 += ipcutil.request(cid + n, ty.t + n * 1000, ipcutil.BIND, e)
                    ipc[cid + n] = ('bind', e)
                ev2 += ipcutil.request(cid, ty.t, ipcutil.BIND, '%s%s = %s' % (lay, l, a))
                ty.t += 20000
        ty.release_all(d)
        srt = lambda ev: sorted(ev, key=lambda e: e[0])
        return dict(confs={'c.conf': t(ref)}, alts=[dict(confs={'c.conf': t(alt)}, ev=srt(ev2 + ty.ev))], ev=srt(ev1 + ty.ev), ipc=ipc, end=ty.t + 5000000)

    def shrink(self, case):
        return ()       # the two histories belong together


LONGLAY = {'layout_number_3': 'f6', 'layout_number_33': 'f7', 'lay4_with_a_name_of_31_letters_': 'f8', 'lay4_with_a_name_of_31_letters': 'f9', 'lay5_with_a_name_of_32_letters__': 'f10', 'lay6' + 'x' * 53: 'f11', 'lay6' + 'x' * 52: 'f12'}
DEFAULTS = dict(macro_timeout=600, macro_repeat_timeout=50, macro_sequence_timeout=0, chord_timeout=50, chord_hold_timeout=0, oneshot_timeout=0, overload_tap_timeout=0, disable_modifier_guard=0, layer_indicator=0)


@check
class C04(fw.Check):
    id = 'C04'
    quick, thorough = 16000, 160000
    technique = ('runtime monitoring: timed output of the real daemon (ASan+UBSan) for a directed probe of each option against a closed formula, and metamorphic runs (defaults written out, section moved or split, '
                 'unrelated options changed, another file with other values)')
    level_note = 'random values and probes; not exhaustive'
    rule = ('probe: one option with a random or absent value amid random values of the others, probed on both sides of its threshold; meta: random configs whose [global] section is written out, moved, split or duplicated, or another config file with other values appears; '
            'evaluations = probes + texts compared; distinct = (option, value, side) and outputs; oracle: formula per option; same timed output')

    def case(self, rng, i, tier):
        if i % 3 == 0:
            keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'leftshift'], rng.randrange(3, 6))
            c = Conf(rng, keys, depth=1, chords=rng.choice([0, 0.4]))
            g = rand_glob(rng, 0.5)
            if c.layouts and rng.random() < 0.5:
                g['default_layout'] = rng.choice(c.layouts)
            c.glob = g
            S = sections_of(c)
            rest = [x for x in S if x[0] != 'global']
            opts = [(k, str(v)) for k, v in g.items()]
            missing = [(k, str(v)) for k, v in DEFAULTS.items() if k not in g and k != 'layer_indicator']
            alts = []
            full = rng.sample(missing, rng.randrange(0, len(missing) + 1)) + opts
            rng.shuffle(full)
            parts = [full] if rng.random() < 0.5 else [full[:len(full) // 2], full[len(full) // 2:]]
            T = list(rest)
            for p in parts:
                T.insert(rng.randrange(1, len(T) + 1), ['global', p])
            alts.append(dict(confs={'c.conf': emit(rng, T)}))
            other = rand_glob(rng, 0.9)
            alts.append(dict(confs={'c.conf': c.text(), rng.choice(['a.conf', 'z.conf']): '[ids]\n9999:9999\n[global]\n' + ''.join('%s = %s\n' % kv for kv in other.items()) + '[main]\na = b\n'}))
            ty = typing(rng, keys, c.timeouts() + [50])
            return dict(kind='meta', confs={'c.conf': c.text()}, alts=alts, ev=ty.ev, end=ty.t + 5000000)
        opt = rng.choice(list(DEFAULTS) + ['default_layout'])
        g = {k: rng.choice([3, 20, 77, 150, 333]) for k in DEFAULTS if rng.random() < 0.3}
        for k in ('disable_modifier_guard', 'layer_indicator'):
            if k in g:
                g[k] = rng.randrange(2)
        g.pop(opt, None)
        # options which take part in the probe of another one
        for o, ks in dict(macro_timeout=['macro_sequence_timeout'], macro_repeat_timeout=['macro_sequence_timeout'], macro_sequence_timeout=['macro_timeout']).items():
            if o == opt:
                for k in ks:
                    g.pop(k, None)
        val = None
        if rng.random() < 0.75:
            val = rng.choice([1, 2, 10, 35, 60, 100, 250, 600, 1200])
            if opt in ('disable_modifier_guard', 'layer_indicator'):
                val = rng.randrange(2)
            if opt == 'default_layout':
                val = rng.choice(['lay1', 'lay2', 'main', 'nolayout', 'l1', 'layout_number_3', 'lay4_with_a_name_of_31_letters_', 'lay1x', 'lay5_with_a_name_of_32_letters__', 'lay6' + 'x' * 53, 'lay6' + 'x' * 52])
            if opt == 'macro_sequence_timeout':
                val = rng.choice([0, 100, 1000, 2500, 40000])
            if opt == 'chord_timeout':
                val = rng.choice([5, 20, 60, 150])
            if opt in ('macro_timeout', 'macro_repeat_timeout'):
                val = rng.choice([8, 35, 100, 600, 1300])
            if rng.random() < 0.1 and opt in ('oneshot_timeout', 'overload_tap_timeout', 'chord_hold_timeout'):
                val = 0
        twice = None
        if rng.random() < 0.25:
            twice = rng.choice(['lay1', 'lay2', 'layout_number_3']) if opt == 'default_layout' else rng.randrange(2) if opt in ('disable_modifier_guard', 'layer_indicator') else rng.choice([1, 40, 500, 3000])
        return dict(kind='probe', opt=opt, val=val, g=g, twice=twice, x=rng.random(), y=rng.random(), place=rng.randrange(3))

    def shrink(self, case):
        if case['kind'] == 'probe':
            for k in case['g']:
                yield dict(case, g={a: b for a, b in case['g'].items() if a != k})
        else:
            yield from Meta.shrink(self, case)

    what = 'with the same options written differently'

    def run_case(self, ctx, case):
        if case['kind'] == 'meta':
            return Meta.run_case(self, ctx, case)
        opt, val, x, y = case['opt'], case['val'], case['x'], case['y']
        g = dict(case['g'])
        if val is not None:
            g[opt] = val
        v = val if val is not None else DEFAULTS.get(opt)
        body = ('[main]\na = macro(x y)\nb = macro(x y z)\nc = oneshot(shift)\nd = overload(control, esc)\ne = layer(meta)\ng = layer(l1)\np = noop\nj+k = f1\n'
                '[l1]\nh = f5\n[lay1:layout]\nh = f2\n[lay2:layout]\nh = f3\n' + ''.join('[%s:layout]\nh = %s\n' % kv for kv in LONGLAY.items()))
        twice = case.get('twice')
        gs = '[global]\n' + ('%s = %s\n' % (opt, twice) if twice is not None and val is not None else '') + ''.join('%s = %s\n' % kv for kv in g.items())
        text = '[ids]\n*\n' + (gs + body if case['place'] == 0 else body + gs if case['place'] == 1 else body.replace('[lay1', gs + '[lay1'))
        ev, t0 = [], 500000

        def stroke(k, at, hold):
            hold = max(hold, 0.5)
            ev.extend([[t0 + int(at * 1000), 0, C[k], 1], [t0 + int((at + hold) * 1000), 0, C[k], 0]])
        exp = None
        side = None
        if opt in ('macro_timeout', 'macro_repeat_timeout'):
            M, R = (g.get(o, DEFAULTS[o]) for o in ('macro_timeout', 'macro_repeat_timeout'))
            n = int(x * 6)
            H = max(1, M - 3) if n == 0 and y < 0.5 else M * y * 0.8 if n == 0 else M + (n - 1) * R + max(2.5, R * 0.5)
            if R < 6:
                return Out(n=0)
            stroke('a', 0, H)
            exp = ['x', 'y'] * (1 + n)
            side = n
            if n == 0 and H >= M - 1:
                return Out(n=0)
        elif opt == 'macro_sequence_timeout':
            stroke('b', 0, 1)
            exp = ['x', 'y', 'z']
        elif opt == 'chord_timeout':
            dt = v - 2 if x < 0.3 else v * y * 0.9 if x < 0.5 else v + 2 if x < 0.8 else v * (1.2 + y)
            if abs(dt - v) < 1.5:
                return Out(n=0)
            chord = dt < v
            hold = g.get('chord_hold_timeout', 0) + 30
            ev.extend([[t0, 0, C['j'], 1], [t0 + int(dt * 1000), 0, C['k'], 1], [t0 + int((dt + hold) * 1000), 0, C['j'], 0], [t0 + int((dt + hold + 5) * 1000), 0, C['k'], 0]])
            exp = ['f1'] if chord else ['j', 'k']
            side = chord
        elif opt == 'chord_hold_timeout':
            H = v - 2 if x < 0.3 else v * y * 0.9 if x < 0.5 else v + 2 if x < 0.8 else v * (1.2 + y)
            if (v and abs(H - v) < 1.5) or H < 0:
                return Out(n=0)
            if not v:
                H = 1 + x * 50
            ev.extend([[t0, 0, C['j'], 1], [t0 + 1000, 0, C['k'], 1], [t0 + 1000 + int(H * 1000), 0, C['j'], 0], [t0 + 1000 + int(H * 1000), 0, C['k'], 0]])
            chord = H > v
            if g.get('chord_timeout', 50) < 3:
                return Out(n=0)
            exp = ['f1'] if chord else ['j', 'k']
            side = chord
        elif opt == 'oneshot_timeout':
            dt = v - 2 if x < 0.4 else v + 2 if x < 0.8 else v * 3 * y
            if not v:
                dt = 1 + x * 5000
            if (v and abs(dt - v) < 1.5) or dt < 0:
                return Out(n=0)
            ev.extend([[t0 - 500, 0, C['c'], 1], [t0, 0, C['c'], 0], [t0 + int(dt * 1000), 0, C['h'], 1], [t0 + int(dt * 1000) + 1000, 0, C['h'], 0]])
            exp = ['S-h'] if not v or dt < v else ['h']
            side = exp[0]
        elif opt == 'overload_tap_timeout':
            H = v - 2 if x < 0.4 else v + 2 if x < 0.8 else v * 3 * y
            if not v:
                H = 1 + x * 3000
            if (v and abs(H - v) < 1.5) or H < 0:
                return Out(n=0)
            stroke('d', 0, H)
            exp = ['esc'] if not v or H < v else []
            side = bool(exp)
        elif opt == 'disable_modifier_guard':
            stroke('e', 0, 100 + 200 * x)
            stroke('p', 20, 50)
            exp = [] if not v else ['tap meta']
            side = v
        elif opt == 'default_layout':
            stroke('h', 0, 10)
            exp = [{'lay1': 'f2', 'lay2': 'f3', **LONGLAY}.get(v, 'h')]
        elif opt == 'layer_indicator':
            stroke('g', 0, 10)
            exp = []
        r = ctx.run(engine.scenario(dict(confs={'c.conf': text}, ev=sorted(ev), end=t0 + 20000000)))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        outs = model.outputs(r.lines)[0]
        norm, left = model.normalise(outs)
        got = []
        for e in norm:
            if e[1] == 'tap':
                got.append('tap ' + {125: 'meta', 56: 'alt', 100: 'altgr'}.get(e[2], '?'))
            elif e[2] == 1 and e[3][1]:
                n = spec.NAME[e[3][0]]
                mods = sorted(m for m in e[4])
                got.append(('S-' if 42 in mods else '') + n)
                if mods and mods != [42]:
                    got[-1] += '!'
        what = '%s = %s (others %s)' % (opt, 'absent' if val is None else val, case['g'])
        if got != exp or left:
            return Out(viol='%s: strokes %s should produce %s but produced %s%s' % (what, [[(e[0] - t0) / 1000] + e[2:] for e in ev], exp, got, ', left held: %s' % sorted(left) if left else ''))
        if opt == 'macro_sequence_timeout':
            ts = [o[0] for o in outs if o[4] == 1]
            if any(abs((b - a) - v) > 50 for a, b in zip(ts, ts[1:])):
                return Out(viol='%s: keys of the macro come at %s us' % (what, ts))
        if opt == 'layer_indicator':
            leds = [(int(f[4]), int(f[5])) for f in r.lines if f[0] == 'L']
            if leds != ([(1, 1), (1, 0)] if v else []):
                return Out(viol='%s: lights written: %s' % (what, leds))
        return Out(sig=[(opt, val, side)], counts={'probes of ' + opt: 1})


# every name: (name, code, shifted)
EVERY = [(n, c, k == 2) for c, t in spec.KEYS.items() for k, n in enumerate(t) if n and (k == 2 or C.get(n) == c)]
WHEEL = {148: (8, -1), 149: (8, 1), 202: (6, -1), 203: (6, 1)}
READ = {}
for _k, _c in list(model.HIGH.items()) + list(model.LOW.items()):
    READ.setdefault(_c, []).append(_k)
for _c in spec.KEYS:
    if _c not in model.BTN and _c not in model.SPECIAL_OUT and _c not in WHEEL and _c != spec.NOOP:
        READ.setdefault(_c, []).append(_c)
WRITE = dict(model.BTN)
WRITE.update(model.SPECIAL_OUT)
# kernel codes which stand for something else inside keyd
ALIASED = (177, 178, 222)


def client(ctx, args, setup=None, devs=(), variant='asan', end=1000000):
    sc = sim.Scn()
    for a in args:
        sc.arg(a)
    for d in devs:
        d = dict(d)
        sc.dev(d.pop('i'), **d)
    if setup:
        setup(sc)
    sc.at(end, 'end')
    return ctx.run(sc, variant).load()


@check
class C05(fw.Check):
    id = 'C05'
    quick, thorough = 8000, 80000
    technique = ('runtime monitoring: output of the real daemon (ASan+UBSan) for configs, macros, bind and macro requests naming every key, against an independent key table; events the virtual devices have not announced; '
                 'output of list-keys and of the monitor client for every kernel code')
    level_note = 'every name in every position and every kernel code 1-767; not every combination'
    rule = ('consecutive cases walk through all names (also alternative and shifted ones) as binding, as action with random modifiers, in macros, in bind and macro requests, on the kernel code(s) of the key or the wheel; all kernel codes through an empty config and through the monitor; list-keys; '
            'evaluations = names or codes probed; distinct = (name, position); oracle: independent table of names, kernel codes read and written')

    def case(self, rng, i, tier):
        if i == 0:
            return dict(kind='list')
        if i <= len(ALIASED):
            return dict(kind='pass', codes=[ALIASED[i - 1]])
        kind = ['bind', 'conf', 'conf', 'macro', 'ipc', 'pass', 'monitor', 'conf'][i % 8]
        j = i // 8
        if kind in ('pass', 'monitor'):
            j = j * 25 % 767
            codes = [1 + (j + k) % 767 for k in range(25)]
            if kind == 'pass':
                codes = [x for x in codes if x not in ALIASED and not 249 <= x < 256]
            return dict(kind=kind, codes=codes)
        perm = list(EVERY)
        random.Random(i // 8 // 12).shuffle(perm)
        j = j % 12
        names = perm[j * len(perm) // 12:(j + 1) * len(perm) // 12]
        mods = lambda: ''.join(rng.sample(['C-', 'S-', 'A-', 'M-', 'G-'], rng.choice([0, 0, 0, 1, 2])))
        ev, t = [], 100000
        devs = [{'i': 0}, {'i': 1, 'mouse': 1}]

        def hit(code):
            nonlocal t
            t += 40000
            if code in WHEEL and rng.random() < 0.8:
                ev.append([t, 'ev 1 2 %d %d' % WHEEL[code]])
                return
            ks = READ.get(code)
            if not ks:
                return
            k = rng.choice(ks)
            d = 1 if k in range(272, 280) else 0
            ev.append([t, d, k, 1])
            t += 15000
            ev.append([t, d, k, 0])
        opts = {}
        ipc = {}
        devs[0]['key'] = '1-255,256-265,272-279,304-767'
        if kind in ('conf', 'bind'):
            lhs = [x for x in rng.sample(names, len(names)) if not x[2]]
            rhs = names
            seen = set()
            lines = []
            for x in lhs:
                if x[1] in seen:
                    continue
                seen.add(x[1])
                y = rhs[len(lines) % len(rhs)]
                m = mods()
                if x[0] == '[' and rng.random() < 0.5:
                    y = next((n for n in names if n[0] == ']'), y)     # a line which looks like a section header
                lines.append((x, m + y[0]))
            if kind == 'conf':
                conf = '[ids]\n*\n[main]\n' + ''.join('%s = %s\n' % (x[0], a) for x, a in lines)
            else:
                conf = '[ids]\n*\n[main]\n'
                for n, (x, a) in enumerate(lines):
                    e = '%s = %s' % (x[0], a)
                    ev += ipcutil.request(n, t, ipcutil.BIND, e)
                    ipc[n] = ('bind', e)
                    t += 20000
            for x, a in lines:
                hit(x[1])
        elif kind == 'macro':
            keys = [spec.NAME[c] for c in READ if 2 <= c < 53]
            conf = '[ids]\n*\n[main]\n'
            use = rng.sample(keys, 10)
            for n, k in enumerate(use):
                part = names[n * len(names) // 10:(n + 1) * len(names) // 10]
                toks = [rng.choice([mods() + x[0], x[0] + '+' + rng.choice(['leftshift', 'a', 'leftalt'])] + (['q%sw' % x[0]] * 2 if len(x[0]) == 1 else [])) if x[0] != '+' else x[0] for x in part]
                toks = [re.sub(r'([()\\])', r'\\\1', x) for x in toks]
                conf += '%s = %s\n' % (k, rng.choice(['macro(%s)', 'macro2(500, 100, macro(%s))']) % ' '.join(toks))
            for k in use:
                hit(C[k])
        else:
            conf = '[ids]\n*\n[main]\n'
            for n in range(6):
                part = names[n * len(names) // 6:(n + 1) * len(names) // 6]
                m = ' '.join('q%sw' % x[0] if len(x[0]) == 1 and x[0] != '+' and rng.random() < 0.5 else mods() + x[0] for x in part)
                ev += ipcutil.request(n, t, ipcutil.MACRO, m)
                ipc[n] = ('do', m, 0)
                t += 400000
        return dict(kind=kind, confs={'c.conf': conf}, devs=devs, devmap={0: 0, 1: 0}, ev=ev, ipc=ipc, end=t + 1000000, names=[x[0] for x in names])

    def shrink(self, case):
        if 'codes' in case and len(case['codes']) > 1:
            for c in case['codes']:
                yield dict(case, codes=[c])
        elif 'ev' in case:
            yield from shrink_strokes(case)

    def run_case(self, ctx, case):
        kind = case['kind']
        if kind == 'list':
            r = client(ctx, ['list-keys'])
            if r.sanitizer() or r.exit:
                return Out(viol='list-keys: %s' % (r.sanitizer() or 'exit status %d' % r.exit))
            got = r.stdout.split('\n')
            miss = [n for n, c, s in EVERY if n not in got]
            if miss:
                return Out(viol='list-keys lacks %s' % miss)
            new = [g for g in got if g and g not in {n for n, c, s in EVERY}]
            return Out(sig=[('list', len(got))], n=len(got), counts={'names listed': len(got), 'names not known here': len(new)})
        if kind in ('pass', 'monitor'):
            dev = dict(i=0, key='1-767', name='kb')
            ev = []
            for n, c in enumerate(case['codes']):
                ev += [[100000 + n * 40000, 0, c, 1], [120000 + n * 40000, 0, c, 0]]
        if kind == 'monitor':
            def setup(sc):
                for e in ev:
                    sc.key(*e)
            r = client(ctx, ['monitor'], setup, [dev], end=2000000)
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol=r.died())
            exp = []
            for c in case['codes']:
                k = model.LOW.get(c, c if c < 256 else model.HIGH.get(c))
                if k is None or k == spec.EXTMOUSE:
                    continue
                exp += [(spec.NAME.get(k), s) for s in ('down', 'up')]
            got = [tuple(l.split('\t')[2].split(' ')) for l in r.stdout.split('\n') if l.startswith('kb\t') and l.count('\t') == 2]
            exp = [x for x in exp if x[0]]
            got = [x for x in got if x[0] in C]
            if exp != got:
                return Out(viol='kernel codes %s should be shown as %s but are shown as %s' % (case['codes'], exp, got))
            return Out(sig=[('monitor', x[0]) for x in exp], n=len(case['codes']), counts={'codes through the monitor': len(case['codes'])})
        if kind == 'pass':
            x = dict(confs={'c.conf': '[ids]\n*\n[main]\n'}, devs=[dev], ev=ev, end=3000000)
            r = ctx.run(engine.scenario(x))
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol=r.died())
            outs, dropped = model.outputs(r.lines)
            exp = []
            for c in case['codes']:
                k = model.LOW.get(c, c)
                if k >= 256:
                    k = model.HIGH.get(c)
                elif k in WRITE or k in WHEEL or k in (spec.NOOP, spec.EXTMOUSE, 197, 198, 199) or k not in spec.KEYS:
                    # internal to keyd, or without a name
                    k = c if c in ALIASED else None
                    if k:
                        exp += [(c, 1), (c, 0)]
                    continue
                if k is None or k == spec.EXTMOUSE:
                    continue
                # by default the right modifiers activate the layers of the left ones
                k = {54: 42, 97: 29, 126: 125}.get(k, WRITE.get(k, k))
                exp += [(k, 1), (k, 0)]
            got = [(o[3], o[4]) for o in outs if o not in dropped and o[2] == 1]
            if len(case['codes']) > 1 or case['codes'][0] not in ALIASED:
                ok = {o for o in exp}
                odd = {c for c in case['codes'] if c < 256 and (c not in spec.KEYS or c == spec.NOOP)}
                got = [g for g in got if g in ok or g[0] not in odd]
            if got != exp:
                return Out(viol='kernel codes %s should come out as %s but come out as %s' % (case['codes'], exp, got))
            return Out(sig=[('pass', c) for c in case['codes']], n=len(case['codes']), counts={'codes through the daemon': len(case['codes'])})
        r = engine.run(ctx, case, ipc=ipcutil.table(case))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol='%s of %s: %s' % (kind, case['names'], r.why))
        if r.dropped:
            return Out(viol='code %s is not one the virtual device announced' % (r.dropped[0],))
        if case['ipc']:
            for l in r.res.lines:
                if l[0] == 'CR' and len(l) > 3:
                    typ, data = ipcutil.parse(bytes.fromhex(l[3]))
                    if typ != ipcutil.SUCCESS:
                        return Out(viol='%r is refused: %r' % (case['ipc'][l[2] if l[2] in case['ipc'] else int(l[2])], data))
        bad = [l for l in r.res.stdout.split('\n') if 'ERROR' in l or 'not a valid' in l]
        if bad:
            return Out(viol='%s of %s: %s' % (kind, case['names'], bad[0]))
        return Out(sig=[(kind, n) for n in case['names']], n=len(case['names']), counts={kind + ': names': len(case['names']), 'outputs': len(r.got)})


ALLCP = [c for c in range(0x80, 0x110000) if not 0xd800 <= c < 0xe000]
NOTUNI = [c for c in ALLCP if c not in unidata.INDEX]


@check
class C06(fw.Check):
    id = 'C06'
    quick, thorough = 1152, 12000
    technique = ('runtime monitoring: key sequences of the real daemon (ASan+UBSan) for every character of the compose file, as input, in a macro request, in a macro and as a binding, decoded by an independent US layout + the shipped compose file; '
                 'every other code point must produce nothing; the compose file itself is loaded with conflict detection')
    level_note = 'every supported character in each position; thorough: every unsupported code point, quick: a different stretch of them per seed'
    rule = ('consecutive cases walk through the code points in random order (thorough: all): supported ones in batches of 36, each by input, by do, in a bound macro and as a binding; unsupported ones in batches of 4x1000 through do, with input refusing them; '
            'evaluations = code points; distinct = code points; oracle: independent decoder; the four sequences are equal; nothing for unsupported ones')

    def case(self, rng, i, tier):
        if i == 0:
            return dict(kind='file')
        seed = int(os.environ.get('VERIF_SEED') or 1)
        if i % 6:
            uni = sorted(unidata.INDEX)
            random.Random(seed).shuffle(uni)
            n = 36
            k = (i - i // 6 - 1) * n % len(uni)
            return dict(kind='good', cps=(uni + uni)[k:k + n])
        k = (i // 6 + seed * 7919) * 4000 % len(NOTUNI)
        return dict(kind='bad', start=k)

    def shrink(self, case):
        if case['kind'] == 'good' and len(case['cps']) > 1:
            for a, b in fw.chunks(case['cps'], 2):
                yield dict(case, cps=case['cps'][a:b])

    def run_case(self, ctx, case):
        if case['kind'] == 'file':
            seen, chars = {}, {}
            for l in open(unidata.REPO + '/data/keyd.compose', encoding='utf-8'):
                if not l.strip() or l.startswith('#') or l.startswith('include'):
                    continue
                m = re.match(r'((?:<\w+> )+)*: ?"(.*)"', l)
                if not m:
                    return Out(viol='compose file: odd line %r' % l[:80])
                keys = tuple(re.findall(r'<(\w+)>', l.split(':')[0]))
                if keys in seen and m.group(2) != seen[keys]:
                    return Out(viol='compose file: %s means both %r and %r' % (keys, seen[keys], m.group(2)))
                seen[keys] = m.group(2)
                if m.group(2):
                    chars.setdefault(m.group(2), []).append(keys)
            for k in seen:
                for n in range(1, len(k)):
                    if k[:n] in seen:
                        return Out(viol='compose file: %s is a prefix of %s' % (k[:n], k))
            many = [c for c, k in chars.items() if len(k) > 1]
            if many:
                return Out(viol='compose file: several sequences for %s' % many[:5])
            return Out(sig=[('file', len(seen))], n=len(seen), counts={'compose entries': len(seen)})
        if case['kind'] == 'good':
            cps = case['cps']
            keys = [k for k in 'abcdefghijklmnopqrstuvwxyz1234567890' if k]
            conf = '[ids]\n*\n[main]\n' + ''.join('%s = %s\n' % (k, chr(c)) for k, c in zip(keys, cps)) + '[m]\n' + ''.join('%s = macro(%s)\n' % (k, chr(c)) for k, c in zip(keys, cps)) + '[main]\ncapslock = layer(m)\n'
            ev, t = [], 100000
            marks = []
            text = ''.join(map(chr, cps))
            ev += ipcutil.request(1, t, ipcutil.INPUT, text)
            t += 1000000
            marks.append((t, text))
            ev += ipcutil.request(2, t, ipcutil.MACRO, ' '.join(text))
            t += 1000000
            marks.append((t, text))
            for k in keys[:len(cps)]:
                ev += [[t, 0, C[k], 1], [t + 5000, 0, C[k], 0]]
                t += 10000
            t += 100000
            marks.append((t, text))
            ev += [[t, 0, 58, 1]]
            for k in keys[:len(cps)]:
                t += 10000
                ev += [[t, 0, C[k], 1], [t + 5000, 0, C[k], 0]]
            t += 10000
            ev += [[t, 0, 58, 0]]
            t += 100000
            marks.append((t, text))
            r = ctx.run(engine.scenario(dict(confs={'c.conf': conf}, ev=ev, end=t + 100000)))
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol=r.died())
            outs, dropped = model.outputs(r.lines)
            if dropped:
                return Out(viol='code %s is not one the virtual keyboard announced' % (dropped[0],))
            t0, seqs = 0, []
            for (t1, text), how in zip(marks, ('input', 'do', 'bindings', 'macros')):
                part = [(o[2], o[3], o[4]) for o in outs if t0 <= o[0] < t1]
                t0 = t1
                got, err = decode(part)
                if err or got != text:
                    k = next((n for n, (a, b) in enumerate(zip(got or '', text)) if a != b), 0)
                    return Out(viol='%s of U+%04X: %s' % (how, ord(text[k]), err or 'types %r' % got[k:k + 5]))
                seqs.append(part)
            return Out(sig=[('good', c) for c in cps], n=len(cps), counts={'characters decoded four times': len(cps)})
        cps = NOTUNI[case['start']:case['start'] + 4000]
        ev, t = [], 100000
        ask = {}
        for n in range(0, len(cps), 1000):
            ev += ipcutil.request(n, t, ipcutil.MACRO, 'x' + ''.join(map(chr, cps[n:n + 1000])))
            t += 100000
        for n in range(7):
            c = cps[n * len(cps) // 7]
            ev += ipcutil.request(5000 + n, t, ipcutil.INPUT, chr(c))
            ask[5000 + n] = c
            t += 20000
        r = ctx.run(engine.scenario(dict(confs={'c.conf': '[ids]\n*\n[main]\n'}, ev=ev, end=t + 100000)))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        outs = model.outputs(r.lines)[0]
        got, err = decode([(o[2], o[3], o[4]) for o in outs])
        if err or got.strip('x'):
            return Out(viol='unsupported characters U+%04X..U+%04X: %s' % (cps[0], cps[-1], err or 'type %r' % got[:50]))
        for l in r.lines:
            if l[0] == 'CR' and len(l) > 3 and int(l[2]) in ask and ipcutil.parse(bytes.fromhex(l[3]))[0] == ipcutil.SUCCESS:
                return Out(viol='input of U+%04X, which cannot be typed, is reported as a success' % ask[int(l[2])])
        return Out(sig=[('bad', case['start'])], n=len(cps), counts={'unsupported characters': len(cps), 'refusals': len(ask)})


def typed(events):
    """the text typed, for keys which overlap and modifiers which are let go of around what they must not affect"""
    down, out, seq = set(), [], None
    for ty, code, val in events:
        if ty != 1 or bool(val) == (code in down):
            return None, 'unexpected event %s' % ((ty, code, val),)
        if not val:
            down.discard(code)
            continue
        down.add(code)
        if code in (42, 54, 29, 97, 56, 100, 125, 126):
            continue
        bad = down & {29, 97, 56, 100, 125, 126}
        if bad:
            return None, 'key %d pressed with the modifiers %s' % (code, sorted(bad))
        ch = '' if code == CANCEL and not down & {42, 54} else US.get(code, (None, None))[bool(down & {42, 54})]
        if ch is None or (ch == '' and seq is not None):
            return None, 'key %d (shift %s) in %r types nothing' % (code, bool(down & {42, 54}), seq)
        if ch == '':
            seq = ''
        elif seq is None:
            out.append(ch)
        elif len(seq) < 2:
            seq += ch
        else:
            if seq + ch not in COMPOSE:
                return None, 'no character for the sequence %r' % (seq + ch)
            out.append(COMPOSE[seq + ch])
            seq = None
    if down or seq is not None:
        return None, 'keys left down: %s, unfinished sequence %r' % (sorted(down), seq)
    return ''.join(out), None


def listed(text):
    """what a layout file lists: ({(modifier keys): {key: character}}, layout name)"""
    secs, cur = {}, None
    for l in text.split('\n'):
        l = l.strip(' \t')
        m = re.match(r'\[([^]=]*)\]$', l)
        if m:
            cur = secs.setdefault(m.group(1).split(':')[0], {})
            top = m.group(1)[:-7] if m.group(1).endswith(':layout') else None
            name = top or name
        elif l and l[0] != '#':
            k, v = re.match(r'([^ \t]+)[ \t]*=[ \t]*(.*)$', l, re.S).groups()
            cur[k] = v
    via = {}
    for k, v in secs[name].items():
        m = re.match(r'layer\((.*)\)$', v)
        if m:
            via[m.group(1)] = k
    out = {}
    for n, ents in secs.items():
        parts = [] if n == name else n.split('+')
        if all(p in via for p in parts):
            out[tuple(sorted(via[p] for p in parts))] = {k: v for k, v in ents.items() if len(v) == 1 and (' ' < v <= '~' or ord(v) in unidata.INDEX)}
    return out, name


LAYOUTS = sorted(os.listdir(unidata.REPO + '/layouts'))
EXAMPLES = sorted(os.listdir(unidata.REPO + '/examples'))
MODKEYS = {'shift': [42, 54], 'altgr': [100], 'alt': [56], 'control': [29, 97], 'meta': [125, 126]}


@check
class C07(fw.Check):
    id = 'C07'
    quick, thorough = 1150, 12000
    technique = ('runtime monitoring: the real daemon (ASan+UBSan) includes each shipped layout and types each key it lists with each of the modifiers which select one of its sections; the key events are decoded by an independent US layout + the shipped compose file '
                 'and compared with the characters written in the file; the log of each shipped layout and example must be free of complaints')
    level_note = 'every shipped layout and every key listed, with several orders and overlaps of strokes; not every order'
    rule = ('consecutive cases walk through the layouts and examples; layout from the config or data directory, selected by default_layout, by setlayout() or by a runtime binding; the keys of each section in random order with the modifiers held throughout, or per key, overlapping or not; '
            'evaluations = characters typed; distinct = (layout, modifiers, key); oracle: the decoded text is what the file lists, the log reports nothing')
    min_distinct = 50

    def case(self, rng, i, tier):
        n = i % (len(LAYOUTS) + len(EXAMPLES))
        if n >= len(LAYOUTS):
            return dict(kind='example', name=EXAMPLES[n - len(LAYOUTS)])
        name = LAYOUTS[n]
        secs, lay = listed(open(unidata.REPO + '/layouts/' + name, encoding='utf-8').read())
        how = rng.choice(['default', 'default', 'set', 'bind'])
        t = 200000
        ev = []
        conf = '[ids]\n*\n'
        inc = 'include layouts/%s\n' % name
        if how == 'default':
            g = '[global]\ndefault_layout = %s\n' % lay
            conf += g + inc if rng.random() < 0.7 else inc + g
        else:
            conf += inc
            if how == 'set':
                conf += '[main]\nf12 = setlayout(%s)\n' % lay
            else:
                ev += ipcutil.request(1, t, ipcutil.BIND, 'f12 = setlayout(%s)' % lay)
                t += 20000
            ev += [[t, 0, 88, 1], [t + 5000, 0, 88, 0]]
            t += 20000
        want = []

        def lap(a, b):
            # a key which is held would be missing from a sequence
            return a.isascii() and b.isascii() and a.isalpha() and b.isalpha() and a.lower() != b.lower()

        for mods, ents in rng.sample(sorted(secs.items()), len(secs)):
            if not all(m in MODKEYS for m in mods):
                continue
            keys = rng.sample(sorted(ents), len(ents))
            codes = [rng.choice(MODKEYS[m]) for m in rng.sample(mods, len(mods))]
            style = rng.choice(['held', 'held', 'each'])
            if tier == 'quick' and style == 'each':
                keys = keys[:12]
            gap = rng.choice([2000, 10000, 30000])
            late = None
            if style == 'held':
                for c in codes:
                    ev.append([t, 0, c, 1])
                    t += gap
            for k in keys:
                if style == 'each':
                    for c in codes:
                        ev.append([t, 0, c, 1])
                        t += gap
                if late and not lap(want[-1][2], ents[k]):
                    ev.append([t, 0, late, 0])
                    late = None
                    t += gap
                ev.append([t, 0, C[k], 1])
                t += gap
                if late:
                    ev.append([t, 0, late, 0])
                    t += gap
                late = C[k]
                if style == 'each' or rng.random() < 0.5:
                    ev.append([t, 0, late, 0])
                    late = None
                    t += gap
                if style == 'each':
                    for c in rng.sample(codes, len(codes)):
                        ev.append([t, 0, c, 0])
                        t += gap
                want.append((mods, k, ents[k]))
            if late:
                ev.append([t, 0, late, 0])
                t += gap
            if style == 'held':
                for c in rng.sample(codes, len(codes)):
                    ev.append([t, 0, c, 0])
                    t += gap
        return dict(kind='layout', name=name, conf=conf, data=rng.random() < 0.4, ev=ev, want=want, end=t + 100000)

    def shrink(self, case):
        return iter(())

    def run_case(self, ctx, case):
        if case['kind'] == 'example':
            conf = open(unidata.REPO + '/examples/' + case['name'], encoding='utf-8').read()
            r = ctx.run(engine.scenario(dict(confs={'c.conf': conf}, ev=[], end=300000)))
            name = 'examples/' + case['name']
        else:
            name = 'layouts/' + case['name']
            text = open(unidata.REPO + '/' + name, encoding='utf-8').read()
            for n, l in enumerate(open(unidata.REPO + '/' + name, encoding='utf-8', newline='').read().split('\n'), 1):
                if any(unicodedata.category(x) == 'Cc' and x != '\t' for x in l):
                    return Out(viol='%s line %d lists the control character %r: %r' % (name, n, next(x for x in l if unicodedata.category(x) == 'Cc'), l))
            r = ctx.run(engine.scenario(dict(confs={'c.conf': case['conf']}, files={('share/keyd/' if case['data'] else 'etc/keyd/') + name: text}, ev=case['ev'], end=case['end'])))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        log = r.stdout + r.stderr
        say = [l for l in log.split('\n') if ('ERROR' in l or 'failed' in l or 'not a valid' in l) and 'effective group' not in l]
        if say:
            return Out(viol='%s is not accepted: %s' % (name, say[0].strip()))
        if case['kind'] == 'example':
            return Out(sig=[name], n=1, counts={'examples': 1})
        outs, dropped = model.outputs(r.lines)
        if dropped:
            return Out(viol='code %s is not one the virtual keyboard announced' % (dropped[0],))
        got, err = typed([(o[2], o[3], o[4]) for o in outs])
        text = ''.join(x[2] for x in case['want'])
        if err or got != text:
            # the text up to the first mistake
            k = next((n for n, (a, b) in enumerate(zip(got or '', text)) if a != b), 0)
            m, key, ch = case['want'][k]
            return Out(viol='%s: %s' % (name, err or '%s types %r rather than %r' % ('+'.join(list(m) + [key]), got[k:k + 1], ch)))
        return Out(sig=[(name, tuple(m), k) for m, k, _ in case['want']], n=len(text), counts={'characters': len(text), 'layouts': 1})


# -- the script which dumps the layout of X
XKEYS = dict(zip([24 + n for n in range(12)] + [38 + n for n in range(11)] + [52 + n for n in range(10)] + [10 + n for n in range(12)] + [51], range(99)))
LATIN = {}
for _n, _c in dict(grave='\u0300', acute='\u0301', circumflex='\u0302', tilde='\u0303', diaeresis='\u0308', ring='\u030a', cedilla='\u0327', macron='\u0304', breve='\u0306', ogonek='\u0328', caron='\u030c', doubleacute='\u030b',
                   abovedot='\u0307', hook='\u0309', belowdot='\u0323').items():
    for _l in 'aeiouycdglnrstzAEIOUYCDGLNRSTZ':
        _x = unicodedata.normalize('NFC', _l + _c)
        if len(_x) == 1:
            LATIN[_l + _n] = _x
KEYSYMS = dict(LATIN, ssharp='ß', ae='æ', AE='Æ', oslash='ø', Oslash='Ø', eth='ð', ETH='Ð', thorn='þ', THORN='Þ', mu='µ', section='§', degree='°', sterling='£', EuroSign='€', currency='¤', yen='¥', cent='¢', notsign='¬', brokenbar='¦',
               guillemotleft='«', guillemotright='»', exclamdown='¡', questiondown='¿', onehalf='½', onequarter='¼', masculine='º', ordfeminine='ª', multiply='×', division='÷', plusminus='±', paragraph='¶', periodcentered='·',
               twosuperior='²', threesuperior='³', onesuperior='¹', idotless='ı', lstroke='ł', Lstroke='Ł', oe='œ', OE='Œ', eng='ŋ', ENG='Ŋ', dstroke='đ', Dstroke='Đ', hstroke='ħ', kra='ĸ', nobreakspace='\xa0',
               Cyrillic_u='у', Cyrillic_U='У', Cyrillic_a='а', Cyrillic_shorti='й', Cyrillic_YU='Ю', Ukrainian_i='і', Ukrainian_I='І', Ukrainian_ie='є', Ukrainian_IE='Є', Byelorussian_SHORTU='Ў', Greek_alpha='α', Greek_UPSILON='Υ', Greek_UPSILONaccent='Ύ',
               Greek_UPSILONdieresis='Ϋ', Greek_OMEGA='Ω', hebrew_aleph='א', Arabic_seen='س', kana_A='ア', Thai_kokai='ก', leftarrow='←', rightarrow='→', trademark='™', endash='–', emdash='—', ellipsis='…', leftdoublequotemark='“', rightsinglequotemark='’',
               exclam='!', quotedbl='"', numbersign='#', dollar='$', percent='%', ampersand='&', apostrophe="'", parenleft='(', parenright=')', asterisk='*', plus='+', comma=',', minus='-', period='.', slash='/', colon=':', semicolon=';',
               less='<', equal='=', greater='>', question='?', at='@', bracketleft='[', backslash='\\', bracketright=']', asciicircum='^', underscore='_', grave='`', braceleft='{', bar='|', braceright='}', asciitilde='~')
KEYSYMS.update({c: c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'})
DEADSYMS = ['dead_acute', 'dead_grave', 'dead_circumflex', 'NoSymbol', 'VoidSymbol', 'dead_belowdot', 'ISO_Level3_Shift']
# names as they are in the header: alternatives, obsolete and parenthesised ones
HEADER = '#ifndef H\n#define XKB_KEY_NoSymbol 0x000000 /* Special KeySym */\n' + ''.join('#define XKB_KEY_%s                      0xfe51\n' % x for x in DEADSYMS if x != 'NoSymbol') + ''.join(
    '#define XKB_KEY_%-32s 0x%04x  /* U+%04X %s */\n' % (n, ord(c) if ord(c) < 256 else 0x1000000 + ord(c), ord(c), unicodedata.name(c)) for n, c in KEYSYMS.items())
REDIR = """package Redir;
BEGIN { *CORE::GLOBAL::open = sub (*;$@) {
    no strict 'refs';
    my $p = caller();
    my @a = @_;
    for (@a[1..$#a]) { s{\\S*xkbcommon-keysyms\\.h}{$ENV{KEYSYMS_H}} if defined $_; }
    return CORE::open(ref $_[0] ? $_[0] : "${p}::$_[0]", $a[1]) if defined $_[0] && @a == 2;
    return CORE::open(ref $_[0] ? $_[0] : "${p}::$_[0]", $a[1], @a[2..$#a]) if defined $_[0];
    return @a == 2 ? CORE::open($_[0], $a[1]) : CORE::open($_[0], $a[1], @a[2..$#a]);
} }
1;
"""


@check
class C08(fw.Check):
    id = 'C08'
    quick, thorough = 1000, 12000
    technique = ('runtime monitoring: the real dump-xkb-config under stand-ins for X (layout tables in the format of xmodmap and setxkbmap, a keysym header), its output loaded by the real daemon (ASan+UBSan); what each key types with shift and altgr, decoded by an independent '
                 'US layout + compose file, against the table')
    level_note = 'random layout tables over 250 keysyms and arbitrary code points; not exhaustive'
    rule = ('tables of 48 keys with up to eight symbols each: letters with every accent, symbols, other scripts, U-notation, dead keys, gaps; names of one or several layouts; every key typed at every level the table has a character for; '
            'evaluations = characters typed; distinct = (symbol, level); oracle: the decoded text is what the table lists, the log reports nothing')
    min_distinct = 50

    def case(self, rng, i, tier):
        names = sorted(KEYSYMS)
        uni = sorted(unidata.INDEX)

        def sym(lvl):
            x = rng.random()
            if x < 0.08:
                return rng.choice(DEADSYMS)
            if x < 0.2:
                c = rng.choice(uni)
                return 'U%04X' % c if rng.random() < 0.9 else 'U%04x' % c
            if x < 0.35:
                return rng.choice('0123456789')
            return rng.choice(names)
        style = rng.choice(['full', 'full', 'noaltgr', 'sparse', 'few'])
        few = rng.sample(sorted(XKEYS), rng.choice([1, 1, 2, 5]))
        lines, table = ['keycode   8 =', 'keycode   9 = Escape NoSymbol Escape'], {}
        for code in sorted(XKEYS):
            if style == 'sparse' and rng.random() < 0.4:
                lines.append('keycode %3d =' % code)
                continue
            row = [sym(n) for n in range(2 if style == 'noaltgr' or style == 'few' and code not in few else rng.choice([1, 2, 2, 6, 6, 6, 8]))]
            if len(row) > 2:
                row[2:4] = row[0:2]
            lines.append('keycode %3d = %s' % (code, ' '.join(row)))
            table[code] = row
        lines += ['keycode  50 = Shift_L NoSymbol Shift_L', 'keycode 108 = ISO_Level3_Shift NoSymbol ISO_Level3_Shift', 'keycode 112 = Prior NoSymbol Prior', 'keycode 210 = a b']
        lay = rng.choice(['us', 'de', 'fr', 'us,ru', 'gb,de,us', 'x_y'])
        want, ev, t = [], [], 200000
        char = lambda x: KEYSYMS.get(x) or (chr(int(x[1:], 16)) if re.match(r'U[0-9a-fA-F]{4,6}$', x) else None)
        levels = [((), 0), (('shift',), 1)]
        if any(len(r) > 4 and char(r[4]) for r in table.values()):
            levels += [(('altgr',), 4), (('altgr', 'shift'), 5)]
        for mods, lvl in rng.sample(levels, len(levels)):
            codes = [rng.choice(MODKEYS[m]) for m in rng.sample(mods, len(mods))]
            for c in codes:
                ev.append([t, 0, c, 1])
                t += 5000
            for code in rng.sample(sorted(table), len(table)):
                ch = char(table[code][lvl]) if len(table[code]) > lvl else None
                if not ch or (ord(ch) > 127 and ord(ch) not in unidata.INDEX):
                    continue
                ev += [[t, 0, code - 8, 1], [t + 5000, 0, code - 8, 0]]
                t += 10000
                want.append((mods, code, table[code][lvl], ch))
            for c in codes:
                ev.append([t, 0, c, 0])
                t += 5000
        return dict(lines=lines, lay=lay, query=rng.choice(['rules:      evdev\nmodel:      pc105\nlayout:     %s\n', 'rules:      evdev\nmodel:      pc105\nlayout:     %s\nvariant:    ,nodeadkeys\noptions:    grp:alt_shift_toggle\n']) % lay,
                    ev=ev, want=want, end=t + 100000)

    def shrink(self, case):
        for n in range(len(case['lines'])):
            code = int(case['lines'][n].split()[1])
            if code in XKEYS and any(w[1] == code for w in case['want']):
                yield dict(case, lines=case['lines'][:n] + case['lines'][n + 1:], want=[w for w in case['want'] if w[1] != code], ev=[e for e in case['ev'] if e[2] != code - 8])

    def run_case(self, ctx, case):
        d = tempfile.mkdtemp(prefix='xkb-', dir=ctx.scratch)
        try:
            for n, text in (('keysyms.h', HEADER), ('Redir.pm', REDIR), ('map', '\n'.join(case['lines']) + '\n'), ('query', case['query'])):
                open(d + '/' + n, 'w', encoding='utf-8').write(text)
            for n, f in (('xmodmap', 'map'), ('setxkbmap', 'query')):
                open(d + '/' + n, 'w').write('#!/bin/sh\nexec cat %s/%s\n' % (d, f))
                os.chmod(d + '/' + n, 0o755)
            env = dict(os.environ, PATH=d + ':' + os.environ['PATH'], KEYSYMS_H=d + '/keysyms.h', PERL5OPT='', LC_ALL='C.UTF-8')
            p = subprocess.run(['perl', '-I' + d, '-MRedir', unidata.REPO + '/scripts/dump-xkb-config'], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        finally:
            shutil.rmtree(d, True)
        if p.returncode:
            return Out(viol='the script fails (status %d): %s' % (p.returncode, p.stderr[-300:]))
        text = p.stdout.decode('utf-8', 'surrogateescape')
        m = re.search(r'(?m)^\[([^]:]*):layout\]', text)
        if not m:
            return Out(viol='no layout in the output: %r' % text[:100])
        r = ctx.run(engine.scenario(dict(confs={'c.conf': '[ids]\n*\n[global]\ndefault_layout = %s\ninclude layouts/dumped\n' % m.group(1)}, files={'etc/keyd/layouts/dumped': text}, ev=case['ev'], end=case['end'])))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        say = [l for l in (r.stdout + r.stderr).split('\n') if ('ERROR' in l or 'failed' in l or 'not a valid' in l) and 'effective group' not in l]
        if say:
            return Out(viol='the dumped layout is not accepted: %s' % say[0].strip())
        outs, dropped = model.outputs(r.lines)
        got, err = typed([(o[2], o[3], o[4]) for o in outs])
        want = ''.join(w[3] for w in case['want'])
        if err or got != want:
            k = next((n for n, (a, b) in enumerate(zip(got or '', want)) if a != b), min(len(got or ''), len(want) - 1))
            mods, code, name, ch = case['want'][k]
            return Out(viol='X types %r (%s) with %s, the dumped layout %s' % (ch, name, '+'.join(list(mods) + ['keycode %d' % code]), err or repr(got[k:k + 1])))
        return Out(sig=[(w[2], tuple(w[0])) for w in case['want']], n=len(want), counts={'characters': len(want), 'layouts': 1})
