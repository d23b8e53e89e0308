"""R06-R09: descriptors, races at start-up, the panic sequence, single instance and socket privacy."""
import os, random, re, shutil
import fw, engine, gen, ipcutil, sim, spec
from fw import Out
from gen import Conf, Typist
from sim import payload

C = spec.NAMES
CHECKS = []
F_OPEN, F_NAME, F_ID, F_BITS, F_ABS, F_GRAB, F_GKEY, F_LEDW, F_ABSY = 1, 2, 4, 8, 16, 32, 64, 128, 256


def check(cls):
    CHECKS.append(cls())
    return cls


# kind -> (scenario fields, is it usable)
KINDS = {
    'kbd': (dict(), True),
    'kbd2': (dict(), True),
    'mouse': (dict(key=sim.MOUSE_KEYS, rel='0,1,6,8', name='mouse'), True),
    'tablet': (dict(key='272', abs='0,1', ax=[0, 1000, 0, 1000], name='tablet'), True),
    'volume': (dict(key='114-115', name='volume keys'), True),
    'virtual': (dict(vendor=0x0fac, product=0x0123, name='other virtual'), True),
    'nograb': (dict(fail=F_GRAB), True),
    'nokeystate': (dict(fail=F_GKEY), True),
    'nothing': (dict(key='116', name='power button'), False),
    'noopen': (dict(fail=F_OPEN), False),
    'noname': (dict(fail=F_NAME), False),
    'noid': (dict(fail=F_ID), False),
    'nobits': (dict(fail=F_BITS), False),
    'noabs': (dict(key='272', abs='0,1', ax=[0, 1000, 0, 1000], fail=F_ABS), False),
    'noabsy': (dict(key='272', abs='0,1', ax=[0, 1000, 0, 1000], fail=F_ABSY), False),
}


def devspec(i, kind, **kw):
    d = dict(i=i, **KINDS[kind][0])
    d.update(kw)
    return d


def fdsets(lines):
    """[(t, fixed (sorted tuple), devices (sorted tuple), connections (sorted tuple))]"""
    res = []
    for f in lines:
        if f[0] in ('FDS', 'ENDFDS'):
            dev = sorted(int(x[4:]) for x in f[2:] if x.startswith('dev:') and int(x[4:]) < 100)
            con = sorted(int(x[4:]) for x in f[2:] if x.startswith('con:'))
            res.append((int(f[1]), tuple(sorted(x for x in f[2:] if not x.startswith(('dev:', 'con:')) or (x.startswith('dev:') and int(x[4:]) >= 100))), tuple(dev), tuple(con)))
    return res


@check
class R06(fw.Check):
    id = 'R06'
    quick, thorough = 12000, 120000
    technique = 'runtime monitoring: open-descriptor census of the real daemon (ASan+UBSan) on a simulated kernel at quiet points of histories of clients, hotplug, unusable devices and reloads'
    level_note = 'random histories; not exhaustive'
    rule = ('histories of client connections of every kind, listener disconnections, device additions/removals (14 kinds, half of them unusable) and reloads; evaluations = censuses; distinct = (devices, listeners, history) combinations; '
            'oracle: descriptors = fixed set + one per present usable device + one per live listener; no close of a closed descriptor')

    def case(self, rng, i, tier):
        n = 8
        kinds = ['kbd'] + [rng.choice(list(KINDS)) for _ in range(n - 1)]
        devs = [devspec(k, kinds[k], present=1 if k == 0 or rng.random() < 0.5 else 0, node='event%d' % k) for k in range(n)]
        present = {d['i'] for d in devs if d['present']}
        nextdev = n
        ev, expect = [[50000, 'fds']], [[50000, sorted(k for k in present if KINDS[kinds[k]][1]), []]]
        t = 100000
        cid = 0
        live, stalled = set(), set()
        crowd = {5: 1, 12: 2}.get(i % 20, 0)
        big = i % 10 == 3
        kcodes = [C['capslock'], C['a'], C['f9']]
        for phase in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([3, 10, 25])):
                t += rng.choice([0, 1000, 20000, 300000])
                x = rng.random()
                if x < 0.25:
                    k = rng.choice(sorted(present - {0}) or [0])
                    if k:
                        ev.append([t, 'rm %d %d' % (k, rng.randrange(2))])
                        present.discard(k)
                elif x < 0.5:
                    # a device which was never there before, on a node which may have been used
                    if nextdev < 90:
                        kind = rng.choice(list(KINDS))
                        used = {d['node'] for d in devs if d['i'] in present}
                        node = rng.choice([x for x in ['event%d' % y for y in range(60)] if x not in used])
                        kinds.append(kind)
                        devs.append(devspec(nextdev, kind, present=0, node=node))
                        ev.append([t, 'add %d' % nextdev])
                        present.add(nextdev)
                        nextdev += 1
                        if rng.random() < 0.1:
                            ev.append([t, 'mkfile dev/input/%s' % rng.choice(['js0', 'mouse3', 'event', 'eventx', 'by-id'])])
                elif x < 0.56:
                    cid += 1
                    ev += [[t, 'conn %d' % cid], [t, 'send %d %s' % (cid, payload(ipcutil.message(ipcutil.RELOAD)))]]
                elif x < 0.66 and live:
                    c = rng.choice(sorted(live))
                    ev.append([t, 'close %d' % c])
                    live.discard(c)
                elif x < 0.72:
                    for c in rng.sample(kcodes, 2):
                        ev += [[t, 0, c, 1], [t + 1000, 0, c, 0]]
                        t += 2000
                else:
                    cid += 1
                    ev.append([t, 'conn %d' % cid])
                    k = rng.randrange(8)
                    if k <= 2 and len(live) < 20 and crowd != 1:
                        ev.append([t, 'send %d %s' % (cid, payload(ipcutil.message(ipcutil.LISTEN)))])
                        live.add(cid)
                        if rng.random() < 0.3:
                            ev.append([t + 1, 'noread %d' % cid])
                        if rng.random() < 0.2:
                            ev.append([t + 1, 'shut %d' % cid])
                        if rng.random() < 0.2:
                            ev.append([t + rng.choice([0, 5, 50000]), 'close %d' % cid])
                            live.discard(cid)
                    elif k == 3:
                        m = ipcutil.message(rng.choice([1, 2, 3, 4, 6, 7, 77]), b'f20 = f21')
                        ev.append([t, 'send %d %s' % (cid, payload(m[:rng.choice([0, 5, 4111])]))])
                        if rng.random() < 0.5:
                            ev.append([t + rng.choice([1, 1000, 150000]), 'close %d' % cid])
                    elif k == 4:
                        ev.append([t, 'close %d' % cid])
                    elif k == 5:
                        ev += [[t, 'noread %d' % cid], [t, 'send %d %s' % (cid, payload(ipcutil.message(rng.choice([2, 3, 4, 8]), b'f20 = f21', sz=rng.choice([None, 4096, 2**40]))))]]
                    else:
                        ev.append([t, 'send %d %s' % (cid, payload(ipcutil.message(rng.choice([2, 3, 4, 9, 0]), rng.choice([b'f20 = f21', b'x = ', b'', b'reset']))))])
                        if rng.random() < 0.3:
                            ev.append([t + 1, 'close %d' % cid])
            if crowd and phase == 0:
                # more listeners or devices than there is room for
                t += 10000000
                if crowd == 1:
                    for _ in range(40):
                        cid += 1
                        t += 2000
                        ev += [[t, 'conn %d' % cid], [t, 'send %d %s' % (cid, payload(ipcutil.message(ipcutil.LISTEN)))]]
                        if len(live) < 32:
                            live.add(cid)
                else:
                    while nextdev < 90 and len(present) < 75:
                        kind = rng.choice(['kbd', 'mouse', 'volume'])
                        kinds.append(kind)
                        devs.append(devspec(nextdev, kind, present=0, node='event%d' % (100 + nextdev)))
                        t += 1000
                        ev.append([t, 'add %d' % nextdev])
                        if sum(1 for k in present if KINDS[kinds[k]][1]) < 62:       # keyd's own two are among the 64
                            present.add(nextdev)
                        nextdev += 1
            # quiet; a layer change lets go of listeners which are gone
            t += 8000000
            for _ in range(2):
                ev += [[t, 0, C['capslock'], 1], [t + 50000, 0, C['capslock'], 0]]
                t += 200000
            t += 500000
            ev.append([t, 'fds'])
            expect.append([t, sorted(k for k in present if KINDS[kinds[k]][1]), sorted(live)])
        conf = '[ids]\n*\n[main]\ncapslock = layer(nav)\nf9 = toggle(num)\n[nav]\n[num]\n'
        if big or rng.random() < 0.1:
            # (a file that is full is not followed by anything)
            conf += ''.join('include %s\n' % rng.choice(['small', 'nope', 'a.b']) for _ in range(rng.randrange(0, 4))) + rng.choice(['', 'include huge\n'])
        return dict(confs={'default.conf': conf}, files={'etc/keyd/huge': '# x\n' * 20000, 'etc/keyd/small': '# y\n'} if 'include' in conf else {}, devs=devs, ev=sorted(ev, key=lambda e: e[0]), expect=expect, end=t + 100000)

    def shrink(self, case):
        return ()       # the expectation goes with the history

    def run_case(self, ctx, case):
        r = ctx.run(engine.scenario(case))
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        for f in r.lines:
            if f[0] == 'BADF' and f[-1] != '-1':
                return Out(viol='a descriptor which is not open was used: %s' % ' '.join(f))
        got = {t: (fx, d, c) for t, fx, d, c in fdsets(r.lines)}
        base = None
        for t, dev, con in case['expect']:
            if t not in got:
                return Out(inconclusive='no census at %d' % t)
            fx, d, c = got[t]
            if base is None:
                base = fx
                if len([x for x in fx if x.startswith('dev:')]) != 2 or len(fx) > 9:
                    return Out(viol='unexpected descriptors at start: %s' % (fx,))
            if fx != base:
                return Out(viol='at %d ms the fixed set of descriptors changed: %s instead of %s' % (t // 1000, fx, base))
            if list(d) != dev:
                return Out(viol='at %d ms devices %s are open, usable and present are %s' % (t // 1000, list(d), dev))
            if list(c) != con:
                return Out(viol='at %d ms connections %s are open, live listeners are %s' % (t // 1000, list(c), con))
        nf = len([1 for f in r.lines if f[0] in ('CLOSE', 'OPEN')])
        return Out(sig=[(tuple(d), len(c)) for _, d, c in case['expect']], n=len(case['expect']),
                   counts={'opens and closes': nf, 'clients': sum(f[0] == 'CC' for f in r.lines), 'live listeners': sum(len(e[2]) for e in case['expect']), 'devices open': sum(len(e[1]) for e in case['expect'])})


@check
class R07(fw.Check):
    id = 'R07'
    quick, thorough = 2600, 26000
    variants = ('tsan', 'asan')
    racy = True
    confirm_tries = 6
    technique = 'runtime monitoring: ThreadSanitizer on the real daemon, with random real delays injected into the simulated kernel calls of the probing threads; device-set monitor'
    level_note = 'sampled interleavings; TSan reports races from happens-before, independent of the schedule hit'
    rule = ('random sets of 0-80 input devices of 14 kinds (unopenable, unprobeable, captured or not), log levels 0-3, then hotplug, reloads and typing, run twice with different injected delays; evaluations = runs; distinct = (open order of probing threads) interleavings observed; '
            'oracle: no TSan report, set of devices = the usable ones (64 at most), identical in both runs')

    def case(self, rng, i, tier):
        n = rng.choice([0, 1, 2, 5, 12, 30, 61, 62, 63, 80])
        w = rng.choice([None, ['noopen', 'noname', 'kbd'], ['kbd'], ['nobits', 'noabs', 'noid', 'mouse']])
        devs = [devspec(k, rng.choice(w or list(KINDS)), node='event%d' % k) for k in range(n)]
        ev = []
        if n and rng.random() < 0.5:
            t = 100000
            for _ in range(rng.randrange(1, 6)):
                k = rng.randrange(n)
                x = rng.random()
                if x < 0.4:
                    ev += [[t, k, C['a'], 1], [t + 1000, k, C['a'], 0]]
                elif x < 0.6:
                    ev += ipcutil.request(len(ev) + 1, t, ipcutil.RELOAD)
                else:
                    ev.append([t + 2000, 'rm %d 0' % k])
                t += 10000
        return dict(confs={'default.conf': '[ids]\n*\n[main]\na = b\n'}, devs=devs or [dict(i=0, present=0)], ev=ev, dbg=rng.randrange(4), jit=rng.randrange(1, 1 << 30), end=400000)

    def shrink(self, case):
        d = case['devs']
        for k in range(len(d)):
            if len(d) > 1:
                yield dict(case, devs=d[:k] + d[k + 1:], ev=[e for e in case['ev'] if isinstance(e[1], str) or e[1] != d[k]['i']])
        for k in range(len(case['ev'])):
            yield dict(case, ev=case['ev'][:k] + case['ev'][k + 1:])

    def run_case(self, ctx, case):
        sets, orders = [], []
        for k in range(2):
            c = dict(case, ev=[[50000, 'fds']] + case['ev'])
            sc = engine.scenario(c)
            sc.opt('jitter', case['jit'] + k)
            if case['dbg']:
                sc.env('KEYD_DEBUG', str(case['dbg']))
            r = ctx.run(sc, 'tsan')
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol=r.died())
            if 'ThreadSanitizer' in r.stderr or 'ThreadSanitizer' in r.stdout:
                return Out(viol='data race: ' + r.stderr[:600])
            f = fdsets(r.lines)
            orders.append(tuple(f[2] for f in r.lines if f[0] == 'OPEN'))
            sets.append(set(f[0][2]) if f else set())
        usable = {d['i'] for d in case['devs'] if d.get('present', 1) and any(d.get('fail', 0) == kd.get('fail', 0) and d.get('key') == kd.get('key') and ok for kd, ok in KINDS.values())}
        for s in sets:
            if len(case['devs']) <= 62 and s != usable:
                return Out(viol='devices found: %s, usable: %s' % (sorted(s), sorted(usable)))
            if not s <= usable or len(s) > 64:
                return Out(viol='devices found: %s, usable: %s' % (sorted(s), sorted(usable)))
        if len(case['devs']) <= 62 and sets[0] != sets[1]:
            return Out(viol='the devices found depend on thread timing: %s / %s' % sets)
        return Out(sig=orders, n=2, counts={'devices': len(case['devs']) * 2, 'found': len(sets[0]) + len(sets[1])})


PANIC = {1, 14, 28}


@check
class R08(fw.Check):
    id = 'R08'
    quick, thorough = 15000, 150000
    technique = 'runtime monitoring: oracle over the recorded input of the real daemon (ASan+UBSan): the first event read that makes escape, backspace and enter all held ends it, nothing else does'
    level_note = 'random histories biased to the three keys; not exhaustive'
    rule = ('typing biased to escape/backspace/enter on up to 3 keyboards (captured, uncaptured, vanishing while holding, held before start) under random configs, chords and pending decisions, binds and reloads; '
            'evaluations = histories; distinct = (panicked, held set, number of devices) x output signatures; oracle on the I records: daemon ends exactly at the first event making all three held')

    def case(self, rng, i, tier):
        keys = ['esc', 'backspace', 'enter', 'a', 'b', 'c', 'capslock']
        c = Conf(rng, rng.sample(keys, rng.randrange(0, 5)), nlayers=2, depth=2)
        if rng.random() < 0.3:
            c.binds.setdefault('main', []) if hasattr(c, 'binds') else None
        text = c.text()
        if rng.random() < 0.3:
            text += '\n[main]\n' + '\n'.join('%s = %s' % (rng.choice(['a', 'b', 'c', 'esc']), rng.choice(['esc', 'backspace', 'enter', 'noop', 'a'])) for _ in range(2)) + '\n'
        if rng.random() < 0.2:
            text += '[main]\nesc+backspace = a\nesc+backspace+enter = b\n'
        devs = [dict(i=0), dict(i=1, vendor=2), dict(i=2, vendor=3)]
        mode = rng.choice(['all', 'all', 'none', 'two'])
        if mode != 'all':
            text = text.replace('[ids]\n*\n', '[ids]\n*\n-0003:0001\n' if mode == 'two' else '[ids]\n0001:0001\n')
        ty = Typist(rng, t=100000, dev=0)
        ev = []
        t = 100000
        held = set()
        three = [1, 14, 28]
        w = rng.choice([three, three + [30], three * 3 + [C[k] for k in keys]])
        gone = set()
        ask = rng.random() < 0.5        # avoid the sequence
        for _ in range(rng.randrange(4, 60)):
            t += rng.choice([0, 1000, 20000, 60000, 300000])
            x = rng.random()
            live = [d for d in range(3) if d not in gone]
            if x < 0.04 and len(live) > 1:
                d = rng.choice(live)
                gone.add(d)
                ev.append([t, 'rm %d %d' % (d, rng.randrange(2))])
                held = {h for h in held if h[0] != d}
            elif x < 0.06:
                ev += ipcutil.request(len(ev) + 1, t, ipcutil.RELOAD)
            elif x < 0.08:
                ev += ipcutil.request(len(ev) + 1, t, ipcutil.BIND, rng.choice(['esc = a', 'enter = noop', 'a = enter', 'reset']))
            else:
                d = rng.choice(live)
                k = rng.choice(w)
                if (d, k) in held:
                    v = rng.choice([0, 0, 0, 0, 2, 1])
                else:
                    v = rng.choice([1, 1, 1, 1, 1, 0])
                if ask and v == 1 and {q for _, q in held | {(d, k)}} >= PANIC:
                    continue
                ev.append([t, d, k, v])
                if v == 1:
                    held.add((d, k))
                elif v == 0:
                    held.discard((d, k))
        return dict(confs={'default.conf': text}, devs=devs, ev=ev, end=t + 500000)

    def run_case(self, ctx, case):
        r = ctx.run(engine.scenario(case))
        if r.inconclusive(panic=True):
            return Out(inconclusive='harness')
        if r.stop == 'NEUTRALWAIT':
            return Out(inconclusive='keys held at capture')
        if r.sanitizer():
            return Out(viol='memory error: ' + r.sanitizer())
        down = {}
        hit = None
        drain = set()
        n = 0
        closest = 0
        for k, f in enumerate(r.lines):
            if hit is not None:
                if f[0] in ('I', 'P') or (f[0] == 'O' and f[5] == '1' and f[3] == '1'):
                    return Out(viol='the panic sequence was complete at %s but the daemon carried on: %s' % (hit, ' '.join(f)))
                continue
            if f[0] == 'P':
                drain.clear()
            elif f[0] == 'G' and f[3] == '1':
                drain.add(f[2])
                down.pop(f[2], None)
            elif f[0] == 'GONE':
                down.pop(f[2], None)
            elif f[0] == 'I' and f[3] == '1' and f[2] not in drain and f[5] in '01' and f[5] != '2':
                n += 1
                s = down.setdefault(f[2], set())
                (s.add if f[5] == '1' else s.discard)(int(f[4]))
                h = len(set().union(*down.values()) & PANIC)
                closest = max(closest, h)
                if h == 3:
                    hit = ' '.join(f)
        if hit is None:
            d = r.died()
            if d:
                return Out(viol='the panic sequence never occurred but: ' + d)
        elif r.ended:
            return Out(viol='the panic sequence (%s) did not end the daemon' % hit)
        return Out(sig=(hit is not None, closest, n, len(down)), n=1, counts={'key events': n, 'ended by panic': hit is not None, 'two of three held': hit is None and closest == 2})


R09CONF = '[ids]\n*\n[main]\na = b\nc = command(:)\n'


@check
class R09(fw.Check):
    id = 'R09'
    quick, thorough = 2200, 22000
    technique = 'runtime monitoring: two real daemons (ASan+UBSan) in one simulated root; monitors on refusal, undisturbed typing, exclusive lock, restart after every kind of end, and socket mode at and after listen()'
    level_note = 'sampled moments of the second start, ways of ending and umasks'
    rule = ('a second daemon started while the first is typing / running commands / serving clients, and after it ended by SIGTERM, SIGKILL, panic with a command still running, under random umasks and socket groups; evaluations = daemon starts; distinct = (scenario, umask, group) combinations; '
            'oracle: second exits non-zero without touching devices or socket while the first lives and works; starts once it has ended; no permission for others at any time')

    def case(self, rng, i, tier):
        return dict(kind=rng.choice(['second', 'second', 'restart', 'stale']), umask=rng.choice([0, 0o22, 0o27, 0o77, 0o777, 0o2, 0o7, 0o100, 0o400]),
                    group=rng.choice([None, 0, 1, 123, 65534]), endby=rng.choice(['term', 'kill', 'panic']), cmd=rng.random() < 0.7, when=rng.choice([0, 1000, 200000]), nstart=rng.choice([1, 1, 2, 4]),
                    conf=rng.random() < 0.8, client=rng.random() < 0.5, stale=rng.choice(['file', 'socket', 'none']))

    def shrink(self, case):
        for k, v in (('cmd', False), ('group', None), ('umask', 0o22), ('nstart', 1), ('client', False)):
            if case[k] != v:
                yield dict(case, **{k: v})

    def base(self, case, first=True):
        sc = sim.Scn()
        if first:
            sc.conf(R09CONF)
        sc.opt('umask', case['umask'])
        if case['group'] is not None:
            sc.opt('group', case['group'])
        sc.opt('start', engine.START)
        if case['cmd']:
            sc.opt('cmdhold', 2)
        sc.dev(0)
        return sc

    def modes(self, r, case, what):
        bad = [f for f in r.lines if f[0] == 'LISTEN' and int(f[2], 8) & 7]
        bad += [f for f in r.lines if f[0] == 'STAT' and f[2] != 'none' and int(f[2], 8) & 7]
        if bad:
            return 'the socket of the %s daemon is accessible to everybody: %s' % (what, ' '.join(bad[0]))
        for f in r.lines:
            if f[0] == 'LISTEN' and not int(f[2], 8) & 0o600 and False:
                return 'x'
        return None

    def typed(self, r, t0, t1, want):
        got = [(int(f[4]), int(f[5])) for f in r.lines if f[0] == 'O' and f[3] == '1' and t0 <= int(f[1]) <= t1]
        return None if got == want else 'keys typed at %d-%d ms came out as %s' % (t0 // 1000, t1 // 1000, got)

    def run_case(self, ctx, case):
        d = os.path.join(ctx.scratch, 'r09-%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        a = sim.Server(ctx.bin('asan'), ctx.scratch)
        b = sim.Server(ctx.bin('asan'), ctx.scratch)
        try:
            return self.drive(ctx, case, d, a, b)
        finally:
            try:
                open(d + '/cmd.release', 'w').close()
            except OSError:
                pass
            a.stop()
            b.stop()
            shutil.rmtree(d, ignore_errors=True)

    def drive(self, ctx, case, d, a, b):
        B, Cc = C['b'], C['c']
        sig = (case['kind'], case['umask'], case['group'], case['endby'] if case['kind'] == 'restart' else None, case['cmd'], case['nstart'])
        counts = {'starts': 0, 'refused': 0}
        if case['kind'] == 'second':
            sc = self.base(case)
            sc.at(100000, 'key 0 30 1').at(140000, 'key 0 30 0')
            if case['cmd']:
                sc.at(200000, 'key 0 %d 1' % Cc).at(240000, 'key 0 %d 0' % Cc)
            sc.at(300000, 'stat').at(300000 + case['when'], 'touch ready')
            sc.at(600000, 'await done')
            sc.at(600001, 'stat').at(600001, 'fds')
            sc.at(700000, 'key 0 30 1').at(740000, 'key 0 30 0')
            for it in ipcutil.request(1, 800000, ipcutil.BIND, 'a = x'):
                sc.at(*it)
            sc.at(900000, 'key 0 30 1').at(940000, 'key 0 30 0')
            sc.at(1000000, 'end')
            a.send(sc, keepdir=d)
            import time
            end = time.time() + 20
            while not os.path.exists(d + '/ready'):
                if time.time() > end:
                    return Out(inconclusive='first daemon not ready')
                time.sleep(0.001)
            ino = os.stat(d + '/run/keyd.socket').st_ino
            why = None
            for _ in range(case['nstart']):
                s2 = self.base(case, first=False)
                s2.at(100000, 'key 0 30 1').at(120000, 'key 0 30 0').at(200000, 'end')
                r2 = b.run(s2, keepdir=d)
                counts['starts'] += 1
                if r2.sanitizer():
                    why = why or r2.sanitizer()
                if r2.ended or r2.exit in (0, -1):
                    why = why or 'a second daemon did not refuse to start (status %d)' % r2.exit
                else:
                    counts['refused'] += 1
                if any(f[0] in ('G', 'O', 'UCREATE', 'LISTEN', 'I') for f in r2.lines):
                    why = why or 'the refused daemon touched devices or the socket: %s' % next(' '.join(f) for f in r2.lines if f[0] in ('G', 'O', 'UCREATE', 'LISTEN', 'I'))
            try:
                if os.stat(d + '/run/keyd.socket').st_ino != ino:
                    why = why or 'the socket of the first daemon was replaced'
            except OSError:
                why = why or 'the socket of the first daemon was removed'
            open(d + '/done', 'w').close()
            r = a.recv()
            r.load()
            if why:
                return Out(viol=why)
            if r.inconclusive(panic=True):
                return Out(inconclusive='harness')
            why = r.died() or self.modes(r, case, 'first')
            why = why or self.typed(r, 90000, 150000, [(B, 1), (B, 0)]) or self.typed(r, 690000, 750000, [(B, 1), (B, 0)]) or self.typed(r, 890000, 950000, [(C['x'], 1), (C['x'], 0)])
            if why:
                return Out(viol=why)
            return Out(sig=sig, n=1 + case['nstart'], counts=counts)
        if case['kind'] == 'stale':
            # leftovers of an earlier crash
            os.makedirs(d + '/run', exist_ok=True)
            if case['stale'] == 'file':
                open(d + '/run/keyd.socket', 'w').close()
            elif case['stale'] == 'socket':
                import socket
                s = socket.socket(socket.AF_UNIX)
                cwd = os.getcwd()
                os.chdir(d)
                s.bind('run/keyd.socket')
                os.chdir(cwd)
                s.close()
            if rnd(case):
                open(d + '/run/keyd.socket.lock', 'w').close()
        else:
            sc = self.base(case)
            if case['cmd']:
                sc.at(100000, 'key 0 %d 1' % Cc).at(140000, 'key 0 %d 0' % Cc)
                sc.at(150000, 'waitexec 1')
            if case['client']:
                for it in ipcutil.request(1, 160000, ipcutil.LISTEN):
                    sc.at(*it)
            if case['endby'] == 'panic':
                for k, c in enumerate(sorted(PANIC)):
                    sc.at(200000 + k, 'key 0 %d 1' % c)
                sc.at(300000, 'end')
            elif case['endby'] == 'kill':
                sc.at(200000, 'kill')
            else:
                sc.at(200000, 'end')
            r = a.run(sc, keepdir=d)
            counts['starts'] += 1
            if r.sanitizer():
                return Out(viol=r.sanitizer())
            why = self.modes(r, case, 'first')
            if why:
                return Out(viol=why)
            if case['cmd'] and not any(f[0] == 'EX' for f in r.lines):
                return Out(inconclusive='no command ran')
        sc = self.base(dict(case, cmd=False), first=case['kind'] == 'stale')
        sc.at(50000, 'stat').at(100000, 'key 0 30 1').at(140000, 'key 0 30 0')
        for it in ipcutil.request(1, 300000, ipcutil.BIND, 'a = x'):
            sc.at(*it)
        sc.at(400000, 'key 0 30 1').at(440000, 'key 0 30 0').at(500000, 'stat').at(500000, 'end')
        r = b.run(sc, keepdir=d)
        counts['starts'] += 1
        if r.inconclusive(panic=True):
            return Out(inconclusive='harness')
        why = r.died()
        if why:
            return Out(viol='a new daemon does not start after the first ended (%s): %s' % (case['endby'], why))
        why = self.modes(r, case, 'new') or self.typed(r, 90000, 150000, [(B, 1), (B, 0)]) or self.typed(r, 390000, 450000, [(C['x'], 1), (C['x'], 0)])
        if why:
            return Out(viol=why)
        return Out(sig=sig, n=2, counts=counts)


def rnd(case):
    return case['umask'] % 2 == 0
