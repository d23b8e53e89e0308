"""Cases that type on simulated keyboards, and their comparison with the executable specification."""
import itertools
import sim
import spec, model
from model import Model, outputs, same

START = 1000000000      # default uptime, us
KEYROW = 'abcdefghijklmnopqrstuvwxyz1234567890'
CODE = {n: spec.NAMES[n] for n in spec.NAMES}


def scenario(case):
    sc = sim.Scn()
    for n, t in case.get('confs', {}).items():
        sc.file('etc/keyd/' + n, t)
    for n, t in case.get('files', {}).items():
        sc.file(n, t)
    for n in case.get('socks', ()):
        sc.raw('MKSOCK ' + n)
    for k, v in case.get('opts', {}).items():
        sc.opt(k, v)
    sc.opt('start', case.get('start', START))
    for d in case.get('devs') or [{'i': 0}]:
        d = dict(d)
        if 'ax' in d and d['ax']:
            d['ax'] = tuple(d['ax'])
        if d.pop('mouse', None):
            sc.mouse(d.pop('i'), **d)
        else:
            sc.dev(d.pop('i'), **d)
    last = 0
    for e in case['ev']:
        if isinstance(e[1], str):
            sc.at(e[0], e[1])
        else:
            sc.key(e[0], e[1], e[2], e[3])
        last = max(last, e[0])
    sc.at(max(case.get('end', 0), last + 1000), 'end')
    return sc


# what the keys with a name come out as: (virtual device, kernel code)
EMITTED = {(1, model.BTN[c]) if c in model.BTN else (0, model.SPECIAL_OUT.get(c, c)) for c in spec.NAME}


class Run:
    pass


def run(ctx, case, variant='asan', cfgs=None, ipc=None, reloads=None, keep=False):
    """-> Run with .res .model .exp .got .why (None if everything agrees) .inconclusive"""
    r = Run()
    r.inconclusive = None
    r.why = None
    r.res = ctx.run(scenario(case), variant, keep=keep)
    if r.res.inconclusive():
        r.inconclusive = 'harness'
    d = r.res.died()
    names = sorted(case['confs'])
    confs = case['confs']
    incl = {k.split('/')[-1]: v for k, v in case.get('files', {}).items()}
    r.configs = cfgs or [spec.Config(confs[n], incl) for n in names]
    devmap = case.get('devmap')
    if devmap is None:
        devmap = {(dd['i']): 0 for dd in (case.get('devs') or [{'i': 0}])}
    devmap = {int(k): v for k, v in devmap.items()}
    start = int(case.get('start', START))
    r.start = start
    if d:
        r.why = d
        r.model = Model(r.configs, devmap, ipc=ipc)
        return r
    r.got, r.dropped = outputs(r.res.lines)
    absax = {dd['i']: dd['ax'] for dd in case.get('devs', []) if dd.get('ax')}
    pointers = {dd['i'] for dd in case.get('devs', []) if dd.get('rel') or dd.get('abs') or dd.get('mouse')}
    first = None
    sizes = [len(r.configs)] + [len(c) for c, _ in reloads or []]
    for orders in itertools.islice(itertools.product(*[itertools.permutations(range(n)) for n in sizes]), 40):
        m = Model(r.configs, devmap, ipc=ipc, reloads=reloads, absax=absax, orders=orders, pointers=pointers)
        m.run(r.res.lines, start)
        why = same(m.sink.outs, r.got)
        if not why and m.missed:
            why = 'a timeout due at %d ms was only noticed at %d ms' % m.missed[0]
        if first is None or not why:
            first, r.model, r.why, r.exp = True, m, why, m.sink.outs
        if not why:
            break
    if not r.why:
        # an event of a kind the virtual device never announced is discarded by the kernel
        bad = [o for o in r.dropped if o[2] != 1 or (o[1], o[3]) in EMITTED]
        if bad:
            r.why = 'the kernel discards (virtual device %d did not announce it): type %d code %d value %d' % bad[0][1:]
    return r


def cov(r):
    """signature of what the model saw in this run"""
    s = set()
    for kb in r.model.kbds:
        s |= {repr(x) for x in kb.cov}
    return s
