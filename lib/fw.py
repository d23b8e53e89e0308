"""Runs a check: many generated cases over worker processes, verdicts, shrinking, replay files, evidence."""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, signal, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import build, sim

VERIF = build.VERIF
EVID = os.environ.get('KEYD_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Out:
    """What one case showed."""

    def __init__(self, viol=None, sig=None, n=1, counts=None, inconclusive=None, sample=None):
        self.viol = viol              # description of a violation, or None
        self.sig = sig                # iterable of hashables (or one): what non-trivial behaviour was observed
        self.n = n                    # evaluations
        self.counts = counts or {}
        self.inconclusive = inconclusive
        self.sample = sample


class Ctx:
    def __init__(self):
        self.scratch = sim.scratch_dir()
        self.servers = {}
        self.bins = {}
        self.instead = None     # the build used in place of the one with ASan+UBSan

    def bin(self, variant):
        if variant not in self.bins:
            self.bins[variant] = build.build(variant)
        return self.bins[variant]

    def run(self, scn, variant='asan', keep=False):
        if variant == 'asan' and self.instead:
            variant = self.instead
        s = self.servers.get(variant)
        if s is None:
            s = self.servers[variant] = sim.Server(self.bin(variant), self.scratch)
        try:
            return s.run(scn, keep=keep)
        except (RuntimeError, OSError, BrokenPipeError):
            s.stop()
            del self.servers[variant]
            s = self.servers[variant] = sim.Server(self.bin(variant), self.scratch)
            return s.run(scn, keep=keep)

    def close(self):
        for s in self.servers.values():
            s.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)


class Check:
    id = None
    variants = ('asan',)
    quick = 400
    thorough = 20000
    rule = ''
    level = 'exploration'
    level_note = ''
    technique = ''
    cap = (240, 840)       # wall clock caps, seconds: stop exploring, never a verdict
    min_distinct = 2

    def case(self, rng, i, tier):
        """-> JSON-able case"""
        raise NotImplementedError

    def run_case(self, ctx, case):
        """-> Out"""
        raise NotImplementedError

    def shrink(self, case):
        """yield smaller candidate cases"""
        return generic_shrink(case)

    def builds(self):
        return list(self.variants) + (['plain', 'msan'] if 'asan' in self.variants else [])

    def prepare(self, tier):
        with ThreadPoolExecutor() as ex:
            list(ex.map(build.build, self.builds()))


def judge(chk, ctx, case):
    """a few cases run as released (-O3) or with the detection of uninitialised memory"""
    ctx.instead = case.pop('build', None) if isinstance(case, dict) else None
    try:
        return chk.run_case(ctx, case)
    finally:
        if ctx.instead:
            case['build'] = ctx.instead
        ctx.instead = None


def chunks(l, n):
    k = max(1, len(l) // n)
    return [(i, min(len(l), i + k)) for i in range(0, len(l), k)]


def strokes(ev):
    """indices of ev grouped so that a press goes with its release"""
    groups, open_ = [], {}
    for i, e in enumerate(ev):
        if len(e) == 4 and not isinstance(e[1], str):
            k = (e[1], e[2])
            if e[3]:
                g = [i]
                groups.append(g)
                open_[k] = g
                continue
            if k in open_:
                open_.pop(k).append(i)
                continue
        elif isinstance(e[1], str):
            # a client goes with what it sends
            w = e[1].split(' ', 2)
            if w[0] == 'conn' and len(w) > 1:
                open_['c', w[1]] = g = [i]
                groups.append(g)
                continue
            if w[0] in ('send', 'req') and len(w) > 1 and ('c', w[1]) in open_:
                open_['c', w[1]].append(i)
                continue
        groups.append([i])
    return groups


def generic_shrink(case):
    ev = case.get('ev')
    if isinstance(ev, list) and ev:
        g = strokes(ev)
        n = 2
        while True:
            for a, b in chunks(g, n):
                drop = {i for x in g[a:b] for i in x}
                c = dict(case)
                c['ev'] = [e for i, e in enumerate(ev) if i not in drop]
                yield c
            if n >= len(g):
                break
            n = min(len(g), n * 2)
    confs = case.get('confs')
    if isinstance(confs, dict):
        for name, text in confs.items():
            L = text.split('\n')
            sec = ''
            for i in range(len(L)):
                if L[i].startswith('['):
                    sec = L[i]
                    continue
                if sec == '[ids]' or not L[i]:
                    continue
                c = dict(case)
                c['confs'] = dict(confs)
                c['confs'][name] = '\n'.join(L[:i] + L[i + 1:])
                yield c


def known_patterns(pid):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    except OSError:
        pass
    return out


def _rng(seed, pid, i):
    return random.Random('%d:%s:%d' % (seed, pid, i))


def _worker(chk, seed, tier, w, nw, total, deadline, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx()
    sys.setrecursionlimit(10000)
    seen = {}
    known, told = known_patterns(chk.id), set()
    agg = dict(n=0, cases=0, inconclusive=0, counts={}, sigs=set(), samples=[], errors=[])
    try:
        for i in range(w, total, nw):
            if stop.is_set() or time.time() > deadline:
                break
            try:
                case = chk.case(_rng(seed, chk.id, i), i, tier)
                if case is None:
                    continue
                if 'asan' in chk.variants and isinstance(case, dict) and i % 6 == 5:
                    case['build'] = 'msan' if i % 12 == 5 else 'plain'
                o = judge(chk, ctx, case)
            except Exception:
                agg['errors'].append('case %d: %s' % (i, traceback.format_exc()))
                if len(agg['errors']) > 3:
                    break
                continue
            agg['cases'] += 1
            agg['n'] += o.n
            for k, v in o.counts.items():
                agg['counts'][k] = agg['counts'].get(k, 0) + v
            if o.inconclusive:
                agg['inconclusive'] += 1
                agg['counts']['inconclusive:' + str(o.inconclusive)[:60]] = agg['counts'].get('inconclusive:' + str(o.inconclusive)[:60], 0) + 1
            if o.sig:
                ss = o.sig if isinstance(o.sig, (set, list, frozenset)) else [o.sig]
                for x in ss:
                    agg['sigs'].add(hashlib.md5(repr(x).encode()).hexdigest()[:16])
                if len(agg['samples']) < 2 and w < 2:
                    agg['samples'].append(o.sample if o.sample is not None else case)
            k = next((d for r, d in known if r.search(o.viol)), None) if o.viol else None
            if k is not None:
                if k not in told:
                    told.add(k)
                    q.put(('viol', i, case, o.viol))
            elif o.viol:
                q.put(('viol', i, case, o.viol))
                seen[o.viol[:40]] = seen.get(o.viol[:40], 0) + 1
                if sum(seen.values()) >= 6:
                    break
    except Exception:
        agg['errors'].append(traceback.format_exc())
    finally:
        ctx.close()
    q.put(('done', w, agg))


def clip(o, n=900):
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + '...'


def run(chk, tier, seed, verbose=True):
    t0 = time.time()
    try:
        chk.prepare(tier)
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    total = chk.quick if tier == 'quick' else chk.thorough
    if os.environ.get('VERIF_CASES'):
        total = int(os.environ['VERIF_CASES'])
    nw = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, total))
    deadline = t0 + chk.cap[0 if tier == 'quick' else 1]
    q, stop = mp.Queue(), mp.Event()
    ps = [mp.Process(target=_worker, args=(chk, seed, tier, w, nw, total, deadline, q, stop), daemon=True) for w in range(nw)]
    for p in ps:
        p.start()
    agg = dict(n=0, cases=0, inconclusive=0, counts={}, sigs=set(), samples=[], errors=[])
    viols, done = [], 0
    known = known_patterns(chk.id)
    known_hit = {}
    hard = time.time() + (chk.cap[0 if tier == 'quick' else 1]) + 60
    while done < nw:
        try:
            m = q.get(timeout=5)
        except Exception:
            if time.time() > hard or not any(p.is_alive() for p in ps):
                break
            continue
        if m[0] == 'viol':
            k = next((d for r, d in known if r.search(m[3])), None)
            if k is not None:
                known_hit.setdefault(k, m)
            else:
                viols.append(m)
                if len(viols) >= 3:
                    stop.set()
        else:
            done += 1
            a = m[2]
            for k in ('n', 'cases', 'inconclusive'):
                agg[k] += a[k]
            for k, v in a['counts'].items():
                agg['counts'][k] = agg['counts'].get(k, 0) + v
            agg['sigs'] |= a['sigs']
            agg['samples'] += a['samples']
            agg['errors'] += a['errors']
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.terminate()
    # reproduce and shrink
    os.makedirs(EVID, exist_ok=True)
    reported = []
    flaky = 0
    for m in sorted(viols, key=lambda m: m[1])[:3]:
        _, i, case, desc = m
        ctx = Ctx()
        try:
            best, bdesc, ok = confirm_and_shrink(chk, ctx, case, desc, known)
        finally:
            ctx.close()
        if not ok:
            flaky += 1
            print('not reproduced (case %d): %s' % (i, desc[:600]))
            continue
        path = os.path.join(EVID, 'replay-%s-%d.json' % (chk.id, i))
        json.dump(dict(property=chk.id, seed=seed, index=i, what=bdesc, case=best, original=case), open(path, 'w'), indent=1, default=str)
        reported.append((path, bdesc))
        break
    for d, m in known_hit.items():
        print('KNOWN-FINDING: property=%s %s' % (chk.id, d))
    wall = time.time() - t0
    cov = dict(evaluations=agg['n'], distinct_nontrivial=len(agg['sigs']), rule=chk.rule,
               samples=[clip(s) for s in agg['samples'][:3]], observed=dict(sorted(agg['counts'].items())),
               inconclusive=agg['inconclusive'], not_reproduced=flaky, planned_cases=total)
    if agg['cases'] != agg['n']:
        cov['cases'] = agg['cases']
    ev = dict(property=chk.id, tier=tier, seed=seed, level=chk.level, coverage=cov, wall_s=round(wall, 2), violations=len(reported))
    json.dump(ev, open(os.path.join(EVID, chk.id + '.json'), 'w'), indent=1, default=str)
    for path, d in reported:
        print(d)
        print('VIOLATION property=%s replay=%s' % (chk.id, path))
    print('%s %s: %d cases, %d evaluations, %d distinct, %d inconclusive, %.1fs' % (chk.id, tier, agg['cases'], agg['n'], len(agg['sigs']), agg['inconclusive'], wall))
    if verbose:
        print(json.dumps(cov['observed']))
    if reported:
        return 1
    for e in agg['errors'][:2]:
        print('ERROR: ' + e)
    if agg['errors'] or done < nw:
        return 2
    if flaky:
        print('note: %d violation(s) did not reproduce and are not reported' % flaky)
    if len(agg['sigs']) < chk.min_distinct or agg['inconclusive'] > max(3, agg['cases'] // 5):
        print('ERROR: too little was observed')
        return 3
    return 0


def confirm_and_shrink(chk, ctx, case, desc, known, budget=25):
    def fails(c):
        try:
            o = judge(chk, ctx, c)
        except Exception:
            return None
        if o.viol and not any(r.search(o.viol) for r, _ in known):
            return o.viol
        return None
    d = None
    for _ in range(getattr(chk, 'confirm_tries', 2)):
        d = fails(case)
        if d:
            break
    if not d:
        return case, desc, bool(getattr(chk, 'racy', False))
    end = time.time() + budget
    best, bd = case, d
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in chk.shrink(best):
            if time.time() > end:
                break
            x = fails(c)
            if x:
                best, bd, progress = c, x, True
                break
    return best, bd, True


def main(chk, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if '--replay' in argv:
        c = json.load(open(argv[argv.index('--replay') + 1]))
        chk.prepare(tier)
        ctx = Ctx()
        try:
            o = judge(chk, ctx, c['original'] if '--original' in argv else c['case'])
        finally:
            ctx.close()
        print(o.viol or 'held', o.counts, o.inconclusive)
        return 1 if o.viol else 0
    return run(chk, tier, seed)
