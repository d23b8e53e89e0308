"""R01..R09: robustness of the daemon."""
import os, random, re, shutil, struct
import fw, engine, gen, ipcutil, model, sim, spec
from gen import C, Conf, Typist, delays, rand_glob
from fw import Out

CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


def payload(b):
    return sim.payload(b)


SECOND = '[ids]\n0009:0009\n[main]\nz = y\nx = macro(a b)\n'
WORDS = ['layer', 'overload', 'overloadt', 'overloadt2', 'overloadi', 'lettermod', 'timeout', 'macro', 'macro2', 'oneshot', 'oneshotm', 'toggle', 'togglem',
         'swap', 'swapm', 'clear', 'clearm', 'setlayout', 'command', 'scroll', 'scrollt', 'layerm', 'overload2', 'overload3', 'toggle2', 'swap2']


def rbytes(rng, n):
    return bytes(rng.choice([0, 9, 10, 13, 32, 35, 40, 41, 43, 44, 45, 46, 58, 61, 91, 92, 93, 127, 128, 0xc3, 0xe2, 0xf0, 0xff, rng.randrange(256), rng.randrange(33, 127)]) for _ in range(n))


def rtoken(rng):
    x = rng.random()
    if x < 0.25:
        return rng.choice(gen.POOL + gen.MODK)
    if x < 0.4:
        return rng.choice(WORDS)
    if x < 0.55:
        return rng.choice(list('()[]=+,.:#\\ -_\t') + ['((', '))', '++', '==', '[]', '[ids]', '\\', 'C-', 'S-', 'M-A-', '0', '-1', '65536', '4294967296', '99999999999999999999', '5ms', '70000ms', '12345678901ms', 'include x', 'include '])
    if x < 0.65:
        return rng.choice(['é', '→', '€', '😀', '\xa0', '\ud800'.encode('utf-8', 'surrogatepass').decode('latin1'), '\xff\xfe', '\xc3', '\xf0\x9f'])
    if x < 0.75:
        return rng.choice('abcxyz+.=,()\\ ') * rng.choice([2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1030, 2000])
    return ''.join(rng.choice('abcdefgh0123') for _ in range(rng.randrange(1, 6)))


def many_args(rng):
    """a call with any number of arguments"""
    return '%s(%s)' % (rng.choice(WORDS), rng.choice([',', ', ', ' , ']).join(rng.choice(['a', 'l1', '5', 'shift', 'layer(l1)', 'C-x', '', 'macro(a b)']) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 12, 40, 100]))))


def big_config(rng):
    """valid in form, at or over a limit"""
    k = rng.randrange(17)
    L = ['[ids]', '*', '[main]']
    n = rng.choice([31, 32, 33, 40, 63, 64, 65, 70, 255, 256, 257, 300])
    if k == 0:
        # as many layers as there may be, and some more, each reachable
        m = rng.choice([n, rng.randrange(22, 34), rng.randrange(24, 31)])
        L += ['%s = %s(l%d)' % (rng.choice(gen.POOL), rng.choice(['layer', 'toggle']), rng.choice([m - 1, m - 2, m - 3])) for _ in range(8)]
        L += ['[l%d%s]\na = b' % (i, rng.choice(['', ':C', ':layout'])) for i in range(m)]
    elif k == 1:
        L += ['%s = macro(%s)' % (rng.choice(gen.LET), ' '.join(rng.choice(['a', 'C-b', 'x+y', '1ms', 'hello']) for _ in range(rng.choice([30, 100, 128, 255, 256, 257, 400])))) for _ in range(3)]
    elif k == 2:
        L += ['%s = %s' % (rng.choice(gen.POOL), rng.choice(['macro(a b)', 'layerm(shift, macro(a b))', 'macro2(5, 5, x)', 'clearm(a)'])) for _ in range(n)]
    elif k == 3:
        L += ['%s = command(echo %d)' % (rng.choice(gen.LET), i) for i in range(n)]
    elif k == 4:
        L += ['%s = overload(shift, timeout(a, %d, overload(control, b)))' % (rng.choice(gen.LET), i) for i in range(rng.choice([300, 512, 600, 1000, 1024, 1025, 1100]))]
    elif k == 5:
        L += ['%s+%s = a' % (a, b) for a in gen.LET[:12] for b in gen.LET[12:19]][:n]
    elif k == 6:
        d = rng.choice([3, 10, 30, 60, 100, 300])
        L += ['a = ' + 'overload(shift, ' * d + 'b' + ')' * rng.choice([d, d - 1, d + 1])]
    elif k == 7:
        L += ['a = ' + 'timeout(a, 1, ' * 30 + 'b' + ')' * 30]
    elif k == 8:
        L += ['%s = %s' % ('a' * n, 'b' * n)]
    elif k == 9:
        L[1:2] = ['%04x:%04x' % (i, i) for i in range(n)] + ['a' * n, 'k:' + 'b' * n, '-' + 'c' * n]
    elif k == 10:
        L += ['%s = command(%s)' % (rng.choice(gen.LET), rng.choice('x\\)') * rng.choice([200, 246, 247, 248, 255, 256, 257, 400]))]
    elif k == 11:
        L += ['[l1]', '[l2]', '[l3]'] + ['[%s]\na = b' % '+'.join(rng.choice(['l1', 'l2', 'l3', 'shift', 'nope', '']) for _ in range(rng.choice([1, 2, 7, 8, 9, 12, 20])))]
        L += ['[%s]\na = b' % '+'.join(rng.choice(['l1', 'l2', 'l3']) for _ in range(x)) for x in (7, 8, 9, 10, 16, 20)]
    elif k == 12:
        L += ['%s = a' % '+'.join(rng.choice(gen.LET) for _ in range(rng.choice([2, 7, 8, 9, 16, 40])))]
    elif k == 13:
        L += ['[aliases]'] + ['%s = %s' % (rng.choice(gen.LET), rng.choice(['foo', 'x' * n, 'a', 'shift', ''])) for _ in range(40)] + ['[main]', 'foo = b', 'x' * n + ' = b']
    elif k == 15:
        L += ['%s = %s' % (rng.choice(gen.LET), many_args(rng)) for _ in range(30)] + ['[l1]', 'a = b']
    elif k == 14:
        L += ['[global]'] + ['%s = %s' % (o, rng.choice(['0', '-1', '99999999999', '', 'x', ' ', '2147483648'])) for o in spec.Config().g] + ['default_layout = ' + 'x' * n]
    else:
        L += ['a = b'] * rng.choice([1000, 1023, 1024, 1025, 5000, 9000]) + ['[l1]', 'a = c', '[l2]', 'b = c'] * rng.randrange(0, 2)
    return '\n'.join(L).encode() + b'\n'


def exact_size(rng, n):
    """a valid file of exactly n bytes"""
    b = b'[ids]\n*\n[main]\na = b\n'
    while len(b) < n:
        m = min(n - len(b), rng.choice([256, 200, 100]))
        if 0 < n - len(b) - m < 3:
            m -= 3
        b += (b'#' * (m - 1) + (b'\n' if rng.random() < 0.99 or len(b) + m < n else b'#'))
    return b


def fuzz_config(rng):
    # macros which are told to take hours are beside the point
    return re.sub(rb'(macro_sequence_timeout\s*=\s*)(-[0-9]*|[0-9]{6,})', rb'\g<1>700', fuzz_bytes(rng))


def fuzz_bytes(rng):
    x = rng.random()
    if x < 0.02:
        return exact_size(rng, rng.choice([65534, 65535, 65536, 65537, 65800, 32768, 4096]))
    if x < 0.06:
        return rbytes(rng, rng.choice([0, 1, 5, 50, 300, 3000, 40000, 65534, 65535, 65536, 70000]))
    if x < 0.2:
        return big_config(rng)
    keys = rng.sample(gen.LET[:12], 5) + ['capslock']
    c = Conf(rng, keys, chords=0.3, glob=rand_glob(rng), depth=3, w=dict(gen.ALLW, scroll=1, scrollt=1))
    b = c.text()
    if x < 0.5:
        # token level
        L = b.split('\n')
        for _ in range(rng.randrange(1, 12)):
            y = rng.random()
            i = rng.randrange(len(L))
            if y < 0.35:
                L.insert(i, ' '.join(rtoken(rng) for _ in range(rng.randrange(1, 4))))
            elif y < 0.6:
                L.insert(i, '%s = %s' % (rtoken(rng), rtoken(rng)))
            elif y < 0.8:
                L.insert(i, '%s = %s(%s)' % (rng.choice(gen.POOL), rng.choice(WORDS), rng.choice([', ', ',', ' ']).join(rtoken(rng) for _ in range(rng.randrange(0, 6)))))
            elif y < 0.9:
                L.insert(i, '[%s]' % ':'.join(rtoken(rng) for _ in range(rng.randrange(0, 3))))
            else:
                p = L[i]
                j = rng.randrange(len(p) + 1)
                L[i] = p[:j] + rtoken(rng) + p[j + rng.randrange(0, 3):]
        b = '\n'.join(L)
        return b.encode('utf-8', 'surrogateescape')
    b = bytearray(b.encode())
    for _ in range(rng.randrange(1, 25)):
        if not b:
            break
        i = rng.randrange(len(b))
        y = rng.random()
        if y < 0.4:
            b[i] = rng.choice([0, 9, 10, 32, 40, 41, 43, 44, 46, 58, 61, 91, 92, 93, 128, 0xc3, 255, rng.randrange(256)])
        elif y < 0.6:
            b[i:i] = rbytes(rng, rng.randrange(1, 8))
        elif y < 0.8:
            del b[i:i + rng.randrange(1, 12)]
        else:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([1, 5, 30, 200])]
    return bytes(b)


def first_violation(*fs):
    for f in fs:
        v = f()
        if v:
            return v


def keyouts(lines, codes=None):
    return [(int(f[1]), int(f[4]), int(f[5])) for f in lines if f[0] == 'O' and f[3] == '1' and (codes is None or int(f[4]) in codes)]


@check
class R01(fw.Check):
    id = 'R01'
    quick, thorough = 5400, 120000
    variants = ('asan', 'msan')
    technique = 'runtime monitoring: real daemon under ASan+UBSan (and MSan for uninitialised reads) on a simulated kernel, loading mutated config files; liveness monitor on a second, valid config'
    level_note = 'generated and mutated config bytes; not exhaustive'
    rule = ('config files (random bytes, mutated valid configs at byte and token level, configs at and over every documented limit, fuzzed includes) loaded at start and by two reloads beside a valid config for another keyboard; '
            'evaluations = fuzzed files loaded; distinct = distinct parser reports (log lines with numbers removed) and remapping results; oracle: no sanitizer report, exit or hang, valid config effective after each load')

    def case(self, rng, i, tier):
        files = [fuzz_config(rng).hex() for _ in range(3)]
        inc = {n: fuzz_config(rng)[:rng.choice([0, 10, 300, 5000, 60000])].hex() for n in rng.sample(['x', 'inc', 'common'], rng.randrange(0, 3))}
        for k in inc:
            if rng.random() < 0.15:
                inc[k] = exact_size(rng, rng.choice([65536, 70000, 65500, 65536 - rng.randrange(0, 400)])).hex()
        if inc and rng.random() < 0.8:
            f = bytes.fromhex(files[0]).split(b'\n')
            f.insert(rng.randrange(len(f) + 1), b'include ' + rng.choice(list(inc)).encode())
            files[0] = b'\n'.join(f).hex()
        keys = [C[k] for k in rng.sample(gen.POOL + gen.MODK, 8)]
        return dict(files=files, inc=inc, keys=keys, msan=i % 4 == 3)

    def shrink(self, case):
        for k in range(3):
            b = bytes.fromhex(case['files'][k])
            if b:
                yield dict(case, files=[x if j != k else b''.hex() for j, x in enumerate(case['files'])])
            L = b.split(b'\n')
            for a, z in fw.chunks(L, 8) + (fw.chunks(L, 40) if len(L) > 8 else []):
                if len(L) > 1:
                    yield dict(case, files=[x if j != k else b'\n'.join(L[:a] + L[z:]).hex() for j, x in enumerate(case['files'])])

    def run_case(self, ctx, case):
        sc = sim.Scn()
        sc.file('etc/keyd/aa.conf', SECOND).file('etc/keyd/fuzz.conf', bytes.fromhex(case['files'][0]))
        for n, h in case['inc'].items():
            sc.file(('etc/keyd/' if n != 'common' else 'share/keyd/') + n, bytes.fromhex(h))
        sc.dev(0).dev(1, vendor=9, product=9)
        t = 100000
        probes = []
        for k in range(3):
            if k:
                sc.at(t, 'write etc/keyd/fuzz.conf ' + payload(bytes.fromhex(case['files'][k])))
                for it in ipcutil.request(k, t + 10, ipcutil.RELOAD):
                    sc.at(it[0], it[1])
                t += 2000000
            for j, c in enumerate(case['keys']):
                sc.key(t, 0, c, 1)
                sc.key(t + 7000 * (j % 4) + 1000, 0, c, 0)
                t += 30000
            t += 3000000
            probes.append(t)
            sc.key(t, 1, C['z'], 1).key(t + 1000, 1, C['z'], 0)
            t += 1000000
        sc.at(t, 'end')
        r = ctx.run(sc, 'msan' if case['msan'] else 'asan')
        if r.inconclusive():
            return Out(inconclusive='harness')
        d = r.died()
        if d:
            return Out(viol='loading a config: ' + d)
        touched = any(re.search(rb'(?m)^\s*(k:)?0', bytes.fromhex(f)) for f in case['files'] + list(case['inc'].values()))
        # another file that lists the second keyboard's id itself may win
        if not touched:
            K = keyouts(r.lines)
            for n, p in enumerate(probes):
                got = [(c, v) for tt, c, v in K if p <= tt < p + 500000 and c in (C['z'], C['y'])]
                if got != [(C['y'], 1), (C['y'], 0)]:
                    return Out(viol='the keyboard of the valid config is not remapped after load %d: %s' % (n, got))
            for k in (1, 2):
                rep = b''.join(bytes.fromhex(f[3]) for f in r.lines if f[0] == 'CR' and f[2] == str(k))
                if len(rep) != ipcutil.SIZE or ipcutil.parse(rep)[0] != ipcutil.SUCCESS:
                    return Out(viol='reload request %d was not answered with success' % k)
        logs = frozenset(re.sub(r'\d+', 'N', l)[:60] for l in r.stdout.split('\n') if 'ERROR' in l or 'WARN' in l)
        outs = tuple((c, v) for tt, c, v in keyouts(r.lines))
        return Out(sig=(logs, outs), n=3, counts={'files loaded': 3, 'parse errors reported': sum('ERROR' in l for l in r.stdout.split('\n')),
                                                  'whole file refused': r.stdout.count('failed to parse'), 'second keyboard probes': 0 if touched else 3})


def bad_line(rng, sec, n):
    """a line that is certainly invalid in the given kind of section -> (line, reported)"""
    k = rng.choice(['a', 'b', 'q', 'capslock', 'f3', 'space', 'leftalt'])
    if sec == 'ids':
        return None
    if sec == 'global':
        return rng.choice(['nosuchoption = 1', 'chord_timeout', 'foo', 'oneshot_timeouts = 50']), False
    if sec == 'aliases':
        return rng.choice(['nosuchkey = foo%d' % n, 'a', 'foo', 'a+b = x', 'a = ' + 'x' * rng.choice([32, 33, 40]), '%s = ' % rng.choice(['tab', 'f2', 'kpasterisk']) + 'x' * 32]), False
    if rng.random() < 0.05:
        # names which do not exist, in sections of their own
        return '[%s]\n%s = x\nnosuchkey = y' % (rng.choice(['nosuch+shift', 'shift+nosuch', 'control+nosuch', 'shift+control+nosuch', 'shift+alt:C', 'x' * 70, ':', 'shift+shift+shift+shift+shift+shift+shift+shift+alt']), k) \
            + '\n[%s]' % sec, None
    return rng.choice([
        'nosuchkey = a', 'a+nosuch = b', k, '%s = nosuchaction(a)' % k, '%s = layer(nosuchlayer)' % k, '%s = overload(nosuch, a)' % k, '%s = overload(shift)' % k,
        '%s = layer()' % k, '%s = timeout(a, 100)' % k, '%s = Q-a' % k, '%s = macro(a+nosuch)' % k, '%s = overload(shift, nosuchkey)' % k,
        '%s = overloadt(shift, a, 100, 5)' % k, '%s = setlayout(shift)' % k, '%s = layer(main)' % k, '%s = lettermod(shift, a, 3)' % k, '%s = aa' % k,
        '%s = overload(shift, a' % k, 'a+b+c+d+e+f+g+h+i+j = x', '%s = macro2(1, 2)' % k, '%s = layerm(shift, nosuch)' % k, '%s = clearm()' % k,
        '%s = oneshot(shift, control, alt, meta, altgr, shift)' % k, 'nosuch.%s = b' % k]), True


@check
class R02(fw.Check):
    id = 'R02'
    quick, thorough = 7000, 70000
    technique = 'runtime monitoring: metamorphic comparison of two runs of the real daemon (with and without the bad lines) plus a log monitor for the reported line numbers and the executable specification'
    level_note = 'random configs and bad lines; not exhaustive'
    rule = ('a random config with 1..12 certainly invalid lines inserted at random places against the same config without them, same typing; evaluations = pairs; distinct = (bad line kinds, output traces); '
            'oracle: identical output, exactly the invalid bindings reported with their line numbers')

    def capacity(self, rng):
        """more of something than fits: the lines which no longer fit are the bad ones"""
        ks = rng.sample(gen.POOL, 12)
        L = ['[ids]', '*', '[main]', 'capslock = layer(l1)', 'f1 = layer(shift)'] + ['%s = %s' % (k, rng.choice(['overload(shift, %s)' % rng.choice(gen.SYM), 'timeout(a, 50, x)'])) for k in ks[:3]]
        fin = ['%s = %s' % (k, rng.choice(['macro(x y)', 'overload(control, z)', 'layerm(l1, macro(1 2))', 'command(echo z)', 'b'])) for k in rng.sample(ks, 6)]
        what = rng.randrange(6)
        k = lambda: rng.choice(ks)
        if what == 0:
            L += ['%s = %s' % (k(), rng.choice(['macro(%s %s)' % (rng.choice(gen.SYM), rng.choice(gen.SYM)), 'layerm(l1, %s)' % rng.choice(gen.SYM), 'macro2(100, 20, S-x)',
                                               'oneshotm(l1, macro(a b))', 'clearm(c)'])) for _ in range(rng.randrange(250, 265))] + fin
        elif what == 1:
            L += ['%s = command(echo %d)' % (k(), n) for n in range(rng.randrange(60, 70))] + fin
        elif what == 2:
            L += ['%s = %s' % (k(), rng.choice(['overload(l1, %s)', 'overload(control, %s)', 'overloadi(%s, layer(l1), 20)']) % rng.choice(gen.SYM)) for n in range(rng.randrange(400, 1000))] + fin
            L += ['[l3]'] + ['%s = overloadi(a, b, 20)' % k() for n in range(rng.choice([10, 300, 320]))]
        elif what == 3:
            L += fin + ['%s+%s = %s' % (a, b, rng.choice(gen.SYM)) for a in ks[:6] for b in [x for x in gen.LET if x not in ks[:6]]][:rng.randrange(60, 72)]
        elif what == 5:
            n = rng.randrange(60, 80)
            I = ['%s%04x:%04x' % (rng.choice(['', 'k:', 'm:', '-']), rng.randrange(2, 65536), x) for x in range(n)]
            I.insert(rng.randrange(0, 64), rng.choice(['0001:0001', 'k:0001:0001', '0001', 'k:0001']))
            L[1:2] = I
            L += fin
        else:
            m = rng.randrange(23, 30)       # (a file has at most 32 sections)
            L += fin + ['%s = %s(m%d)' % (rng.choice(ks), rng.choice(['layer', 'toggle']), x) for x in (0, m - 5, m - 4, m - 3, m - 2, m - 1)]
            L += [x for n in range(m) for x in ('[m%d%s]' % (n, rng.choice(['', ':C', ':A'])), '%s = %s' % (k(), rng.choice(gen.SYM)))]
        if what != 4 or rng.random() < 0.5:
            L += ['[l1:C]'] + ['%s = %s' % (k(), rng.choice(gen.SYM)) for _ in range(4)]
        ty = Typist(rng)
        ty.random(ks + ['capslock', 'f1'], rng.randrange(20, 60), delays(rng, [20, 50, 100]))
        ty.release_all()
        return dict(base=L, ins=[], ev=ty.ev, end=ty.t + 3000000)

    def case(self, rng, i, tier):
        if i % 12 == 7:
            return self.capacity(rng)
        keys = rng.sample(['a', 'b', 'c', 'd', 'q', 'capslock', 'space', 'f3', 'leftalt'], rng.randrange(3, 6))
        long = (lambda n: n + 'z' * rng.choice([0, 20, 27, 28, 29, 30, 40, 50])) if rng.random() < 0.3 else None
        c = Conf(rng, keys, chords=rng.choice([0, 0.3]), glob=rand_glob(rng), depth=1, name=long)
        L = c.text().rstrip('\n').split('\n')
        if rng.random() < 0.4:
            L[2:2] = ['[aliases]', 'q = foo', 'f3 = foo', '[main]', 'foo = x']
        if rng.random() < 0.4:
            # empty lines and comments count as lines of the file
            for _ in range(rng.randrange(1, 8)):
                L.insert(rng.randrange(2, len(L) + 1), rng.choice(['', '', '# x', '#', '  ', '\t# a = b']))
        # a type which does not exist is not a type
        hdr = [[n, l[:-1] + rng.choice([':nosuch', ':C-Q', ':S-A-x', ':layouts', ':normal', ':CS', ': C'])] for n, l in enumerate(L)
               if l[:1] == '[' and l[1:-1] in c.layers and len(l) < 50 and rng.random() < 0.2]
        hdr = [[n, h + ']'] for n, h in hdr]
        ins = []
        for n in range(rng.randrange(1, 13)):
            at = rng.randrange(2, len(L) + 1)
            sec = next(l for l in reversed(L[:at]) if l.startswith('['))[1:-1].split(':')[0]
            b = bad_line(rng, sec, n)
            if b and c.layouts and b[1] and rng.random() < 0.1:
                b = '%s = %s' % (rng.choice(['a', 'q', 'space']), rng.choice(['layer(%s)', 'toggle(%s)', 'oneshot(%s)', 'overload(%s, a)', 'layerm(%s, x)', 'swap(%s)', 'overloadt(%s, a, 50)',
                                                                             'toggle2(%s)', 'setlayout(x%s)', 'clearm(%s)']) % rng.choice(c.layouts)), True
            if b:
                ins.append([at, b[0], b[1]])
        ins.sort(key=lambda x: x[0])
        ty = Typist(rng)
        ty.random(keys + ['q', 'f3'], rng.randrange(10, 40), delays(rng, c.timeouts() or [50]))
        ty.release_all()
        return dict(base=L, ins=ins, hdr=hdr, ev=ty.ev, end=ty.t + 3000000)

    def shrink(self, case):
        hdr = case.get('hdr') or []
        for i in range(len(hdr)):
            yield dict(case, hdr=hdr[:i] + hdr[i + 1:])
        for i in range(len(case['ins'])):
            yield dict(case, ins=case['ins'][:i] + case['ins'][i + 1:])
        yield from fw.generic_shrink(case)
        for i in range(2, len(case['base'])):
            if not case['base'][i].startswith('['):
                yield dict(case, base=case['base'][:i] + case['base'][i + 1:], ins=[[a if a <= i else a - 1, b, c] for a, b, c in case['ins']], hdr=[[a if a <= i else a - 1, b] for a, b in hdr])

    def run_case(self, ctx, case):
        L, nums, alln, j = [], set(), set(), 0
        hdr = dict(case.get('hdr') or [])
        for i in range(len(case['base']) + 1):
            while j < len(case['ins']) and case['ins'][j][0] == i:
                for x in case['ins'][j][1].split('\n'):
                    L.append(x)
                    alln.add(len(L))
                if case['ins'][j][2]:
                    nums.add(len(L))
                j += 1
            if i < len(case['base']):
                L.append(hdr.get(i, case['base'][i]))
        ra = ctx.run(engine.scenario(dict(confs={'default.conf': '\n'.join(case['base']) + '\n'}, ev=case['ev'], end=case['end'])))
        r = engine.run(ctx, dict(confs={'default.conf': '\n'.join(L) + '\n'}, ev=case['ev'], end=case['end']))
        if ra.inconclusive() or r.inconclusive:
            return Out(inconclusive='harness')
        if ra.died():
            return Out(viol=ra.died())
        if not hasattr(r, 'got'):
            return Out(viol='with the bad lines: ' + r.why)
        a = model.outputs(ra.lines)[0]
        if a != r.got:
            w = model.same(a, r.got) or 'different output'
            return Out(viol='bad lines %s change the rest of the file: %s' % ([x[1][:60] for x in case['ins']], w.replace('expected', 'without them').replace('observed', 'with them')))
        if r.why:
            return Out(viol=r.why)
        rep = {int(x) for x in re.findall(r'line (\d+)', r.res.stdout + r.res.stderr)}
        if not nums <= rep:
            return Out(viol='bad bindings on lines %s were not reported (reported: %s)' % (sorted(nums - rep), sorted(rep)))
        base_bad = {n for n in r.configs[0].bad}
        if not case['ins'] and base_bad - rep:
            return Out(viol='bad bindings on lines %s were not reported (reported: %s)' % (sorted(base_bad - rep)[:9], sorted(rep)[:9]))
        if rep - alln - base_bad:
            return Out(viol='lines %s are reported although nothing is wrong with them: %s' % (sorted(rep - alln - base_bad), [L[n - 1] for n in sorted(rep - alln - base_bad)][:3]))
        return Out(sig=(tuple(sorted(x[1] for x in case['ins'])), fw.hashlib.md5(repr(a).encode()).hexdigest()), n=1, counts={'bad lines': len(case['ins']), 'reported lines': len(rep), 'outputs': len(a)})


NOPANIC = {C['esc'], C['backspace'], C['enter']}


def hostile_events(rng, n, devs, t, codes):
    ev = []
    for _ in range(n):
        x = rng.random()
        t += rng.choice([0, 0, 0, 100, 1000, 5000, 20000, 60000, 250000, 1200000]) if rng.random() < 0.9 else rng.randrange(0, 40000000)
        d = rng.choice(devs)
        if x < 0.75:
            ev.append([t, 'key %d %d %d' % (d, rng.choice(codes), rng.choice([0, 1, 1, 1, 2]))])
        elif x < 0.85:
            c = rng.choice([rng.randrange(0, 256), rng.randrange(256, 768), rng.choice(list(model.HIGH))])
            if c in NOPANIC:
                c = 2
            ev.append([t, 'ev %d 1 %d %d' % (d, c, rng.choice([0, 1, 1, 2]))])
        elif x < 0.92:
            c = rng.choice([0, 1, 2, 6, 8, 8, 7, 11, 12, 15])
            ev.append([t, 'ev %d 2 %d %d' % (d, c, rng.choice([0, 1, -1, 3, -7, 120, -120]) if c in (6, 8) else rng.choice([0, 1, -1, 127, -32768, 2**31 - 1, -2**31]))])
        elif x < 0.96:
            ev.append([t, 'ev %d 3 %d %d' % (d, rng.choice([0, 1, 2, 24, 47, 63]), rng.choice([0, 1, -1, 5000, 2**31 - 1, -2**31]))])
        elif x < 0.98:
            ev.append([t, 'ev %d 17 %d %d' % (d, rng.randrange(0, 16), rng.randrange(0, 2))])
        else:
            ev.append([t, 'ev %d %d %d %d' % (d, rng.choice([0, 4, 5, 18, 20, 21, 22, 23, 31]), rng.choice([0, 1, 3, 255, 768, 65535]), rng.choice([0, 1, -1, 2**31 - 1]))])
    return ev, t


@check
class R03(fw.Check):
    id = 'R03'
    quick, thorough = 2900, 100000
    technique = 'runtime monitoring: real daemon under ASan+UBSan with hostile event streams; liveness monitor (final probe key) and executable specification of the output'
    level_note = 'random hostile histories; not exhaustive'
    rule = ('random configs over every action x hostile timed streams from 1..4 devices (key codes 0..767, repeats, double presses, missing and stray releases, up to hundreds of keys held, extreme motion, LED and unknown event types, late wakeups); '
            'evaluations = histories; distinct = output traces; oracle: no sanitizer report, assertion, exit or hang, every released history answers a final probe key with exactly that key')

    def case(self, rng, i, tier):
        keys = rng.sample(gen.LET[:14] + ['capslock', 'leftshift', 'leftalt', 'leftmeta', 'rightalt', 'leftmouse', 'scrollup', 'space', 'f13'], rng.randrange(3, 12))
        c = Conf(rng, keys, chords=rng.choice([0, 0.4, 0.8]), glob=rand_glob(rng), depth=3, w=dict(gen.ALLW, scroll=0.7, scrollt=0.7), ids='*\n0002:0002\n0003:0003')
        codes = [C[k] for k in keys]
        mode = i % 3
        if mode == 0:
            codes += [x for x in range(1, 249) if x not in NOPANIC]
        else:
            codes = codes * 4 + [C['q'], C['w'], 196, 197, 198, 199, 195, 0, 255, 223]
        if mode == 2:
            codes = codes[:len(keys) * 4]
        devs = [{'i': 0}]
        if rng.random() < 0.6:
            devs.append({'i': 1, 'mouse': 1, 'vendor': 2, 'product': 2})
        if rng.random() < 0.4:
            devs.append({'i': 2, 'vendor': 3, 'product': 3, 'abs': '0,1', 'ax': rng.choice([[0, 100, 0, 100], [0, 0, 5, 5], [-2**31, 2**31 - 1, 0, 1], [5, -5, 0, 2**31 - 1]])})
        if rng.random() < 0.3:
            devs.append({'i': 3, 'mouse': 1, 'vendor': 4, 'product': 4})
        ev, t = hostile_events(rng, rng.choice([20, 60, 200, 400]), [d['i'] for d in devs], 100000, codes)
        if rng.random() < 0.2:
            ev += [[e[0], 'late %d' % rng.choice([1000, 20000, 500000])] for e in rng.sample(ev, 4)]
        ev.sort(key=lambda e: e[0])
        return dict(confs={'default.conf': c.text()}, devs=devs, ev=ev, t=t, start=rng.choice([10**9, 10**6, 2**31 * 1000]))

    def run_case(self, ctx, case):
        ev = list(case['ev'])
        t = max([e[0] for e in ev] + [100000]) + 10000
        held = set()
        for e in ev:
            f = e[1].split()
            if f[0] == 'key':
                d, c, v = int(f[1]), int(f[2]), int(f[3])
            elif f[0] == 'ev' and f[2] == '1':
                d, c, v = int(f[1]), int(f[3]), int(f[4])
            else:
                continue
            (held.add if v else held.discard)((d, c))
        for d, c in sorted(held):
            ev.append([t, 'key %d %d 0' % (d, c)])
            t += 1000
        t += 8000000
        probe = t
        P = C['f24']
        ev += [[t, 0, P, 1], [t + 40000, 0, P, 0]]
        case2 = dict(case, ev=ev, end=t + 3000000)
        dm = {}
        for d in case.get('devs', []):
            dm[d['i']] = 'ext' if d['i'] == 3 else 0
        case2['devmap'] = dm
        r = engine.run(ctx, case2)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if not hasattr(r, 'got'):
            return Out(viol=r.why)
        tail = [(e[2], e[3], e[4]) for e in r.got if e[0] >= probe - 1000 and e[3] not in spec.MODSET]
        if tail != [(1, P, 1), (1, P, 0)]:
            return Out(viol='the daemon does not answer a key struck afterwards correctly: %s' % tail)
        if r.why:
            return Out(viol=r.why)
        return Out(sig=fw.hashlib.md5(repr([e[1:] for e in r.got]).encode()).hexdigest(), n=1,
                   counts={'events': len(ev), 'outputs': len(r.got), 'most keys held at the end': len(held)})


R04CONF = '[ids]\n*\n[main]\ncapslock = layer(nav)\nf9 = toggle(nav)\nh = x\n[nav]\nh = left\n'


@check
class R04(fw.Check):
    id = 'R04'
    quick, thorough = 9000, 90000
    technique = 'runtime monitoring: real daemon under ASan+UBSan with hostile control-socket clients on a simulated clock; latency monitor on every key event and liveness monitor (honest client and key at the end)'
    level_note = 'random client behaviours; latency measured in simulated time'
    rule = ('hostile clients (early close, truncated, trickled, oversized, unknown, unread replies, stalled and vanishing listeners, more clients than the backlog, connections which cannot be accepted) interleaved with typing and layer changes; '
            'evaluations = histories; distinct = histories of client outcomes; oracle: every key event emitted correctly and within 160 ms per client handled meanwhile and 60 ms per listener, no blocking or exit, honest client at the end served')

    def case(self, rng, i, tier):
        ev, ipc = [], {}
        ty = Typist(rng, t=200000)
        keys = ['a', 'b', 'c', 'h', 'capslock', 'capslock', 'f9']
        n = rng.randrange(10, 60)
        flood = rng.random() < 0.15
        if flood:
            # enough layer changes to fill a stalled listener's buffer
            for _ in range(rng.choice([200, 450])):
                ty.tap('capslock', 500)
                ty.t += rng.choice([500, 1000])
        for _ in range(n):
            ty.random(keys, 1, lambda: rng.choice([500, 5000, 20000, 90000, 200000]), maxheld=3)
        ty.release_all()
        ev += ty.ev
        end = ty.t
        nc = rng.choice([1, 2, 4, 8, 20, 45])
        burst = rng.random() < 0.3
        bt = rng.randrange(100000, end)
        for cid in range(1, nc + 1):
            t = bt + rng.randrange(0, 50) if burst else rng.randrange(100000, end)
            if rng.random() < 0.08:
                # EINTR, EAGAIN, ENFILE, EMFILE (the connection waits), ECONNABORTED (it is gone)
                ev.append([t, 'accfail %d %d' % (rng.randrange(1, 4), rng.choice([4, 11, 23, 24, 103, 103]))])
            ev.append([t, 'conn %d' % cid])
            k = rng.randrange(12)
            full = lambda typ, data=b'', **kw: ipcutil.message(typ, data, **kw)
            if k == 0:
                ev.append([t + rng.choice([0, 10, 50000, 150000]), 'close %d' % cid])
            elif k == 1:
                m = full(rng.randrange(0, 9), rbytes(rng, 20))[:rng.choice([0, 1, 4, 8, 100, 4096, 4104, 4111])]
                ev.append([t + 1, 'send %d %s' % (cid, payload(m))])
                if rng.random() < 0.6:
                    ev.append([t + rng.choice([2, 5000, 99000, 101000, 400000]), rng.choice(['close %d', 'shut %d']) % cid])
            elif k == 2:
                ev.append([t, 'noread %d' % cid])
                ev.append([t + 1, 'send %d %s' % (cid, payload(full(rng.choice([0, 1, 7, 8, 99, -1, 2**31 - 1]), b'x' * 30)))])
            elif k == 3:
                m = full(ipcutil.BIND, b'f20 = f21')
                ipc[cid] = ['bind', 'f20 = f21']
                ev.append([t, 'send %d %s' % (cid, payload(m))])
                ev.append([t, 'close %d' % cid])
            elif k in (4, 5, 6):
                # a listener that stalls, vanishes or half-closes
                ev.append([t + 1, 'send %d %s' % (cid, payload(full(ipcutil.LISTEN)))])
                x = rng.random()
                if x < 0.5:
                    ev.append([t + 2, 'noread %d' % cid])
                if x > 0.3:
                    ev.append([t + rng.choice([3, 10000, 300000]), rng.choice(['close %d', 'close %d', 'shut %d']) % cid])
            elif k == 7:
                m = full(ipcutil.BIND, b'f20 = f22')
                step = rng.choice([300, 1000, 2056])
                gap = rng.choice([1000, 20000, 60000, 99000, 120000])
                tt = t
                for a in range(0, len(m), step):
                    ev.append([tt, 'send %d %s' % (cid, payload(m[a:a + step]))])
                    tt += gap
            elif k == 8:
                ev.append([t + 1, 'send %d %s' % (cid, payload(full(rng.choice([2, 3, 4, 7]), b'a', sz=rng.choice([4096, 4097, 2**31, 2**32, 2**63, 2**64 - 1]))))])
            elif k == 9:
                ev.append([t + 1, 'send %d %s' % (cid, payload(full(ipcutil.BIND, b'f20 = f21') * 2 + b'xyz'))])
                ipc[cid] = ['bind', 'f20 = f21']
            elif k == 10:
                # asks for more time than anybody may have: refused at once
                ev.append([t + 1, 'send %d %s' % (cid, payload(full(rng.choice([ipcutil.INPUT, ipcutil.MACRO]), b'xyz', timeout=rng.choice([1000001, 2**31 - 1, 2**31, 2**32 - 1]))))])
            else:
                pass        # never says anything
        t = end + 8000000
        ev.append([t - 1000, 'accfail 0 0'])
        for cid in (390, 391):
            ev += ipcutil.request(cid, t, ipcutil.BIND, 'c = y' if cid == 390 else 'c = nosuchkey')
            t += 100000
        ipc[390] = ['bind', 'c = y']
        ipc[391] = ['bind', 'c = nosuchkey']
        ev += ipcutil.request(392, t, ipcutil.LISTEN)
        t += 100000
        for c in (C['c'], C['capslock']):
            ev += [[t, 0, c, 1], [t + 20000, 0, c, 0]]
            t += 100000
        ev.sort(key=lambda e: e[0])
        return dict(confs={'default.conf': R04CONF}, ev=ev, ipc=ipc, end=t + 1000000, final=end)

    def run_case(self, ctx, case):
        r = engine.run(ctx, case, ipc=ipcutil.table(case))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if not hasattr(r, 'got'):
            return Out(viol=r.why)
        if r.why and 'timeout due' not in r.why:
            return Out(viol=r.why)
        # latency of every key event
        arr, ca, lst, worst = {}, [], 0, 0
        pend = []
        for f in r.res.lines:
            if f[0] == 'CA':
                ca.append(int(f[1]))
            elif f[0] == 'CC':
                lst += 1
            elif f[0] == 'H' and f[3] == '1':
                pend.append(int(f[1]))
            elif f[0] == 'I' and f[2] == '0' and f[3] == '1' and pend:
                t0, t1 = pend.pop(0), int(f[1])
                lim = 160000 * sum(1 for x in ca if x >= t0 - 160000) + 60000 * lst + 5000
                worst = max(worst, t1 - t0)
                if t1 - t0 > lim:
                    return Out(viol='a key event waited %d ms for control-socket clients (allowed: %d ms)' % ((t1 - t0) // 1000, lim // 1000))
        if pend:
            return Out(viol='%d key events were never read' % len(pend))
        rep = {}
        for f in r.res.lines:
            if f[0] == 'CR':
                rep[int(f[2])] = rep.get(int(f[2]), b'') + bytes.fromhex(f[3])
        a, b, l = rep.get(390, b''), rep.get(391, b''), rep.get(392, b'')
        if len(a) != ipcutil.SIZE or ipcutil.parse(a)[0] != ipcutil.SUCCESS or len(b) != ipcutil.SIZE or ipcutil.parse(b)[0] != ipcutil.FAIL:
            return Out(viol='honest clients at the end are not answered correctly')
        nl = sum(1 for f in r.res.lines if f[0] == 'CC')
        if l.count(b'+nav') < 1 and nl < 32:
            return Out(viol='a listener connected at the end is not served: %r' % l)
        out = tuple(sorted((f[0], f[2]) for f in r.res.lines if f[0] in ('CE', 'CF', 'CZ'))) + tuple((f[2], len(f[3])) for f in r.res.lines if f[0] == 'CR')
        return Out(sig=(out, worst // 10000), n=1, counts={'clients': nl, 'clients answered': len(rep), 'key events': r.model.nev, 'worst delay over 10 ms': worst > 10000, 'send timeouts': sum(f[0] == 'TMO' for f in r.res.lines), 'failed accepts': sum(f[0] == 'AF' for f in r.res.lines)})


def fuzz_payload(rng, typ):
    """-> (bytes, keys possibly affected)"""
    x = rng.random()
    if x < 0.12:
        return rbytes(rng, rng.choice([0, 1, 3, 20, 200, 1000, 4000, 4095]))
    if x < 0.2:
        return (rtoken(rng) * rng.choice([1, 10, 100, 1000])).encode('utf-8', 'surrogateescape')[:4095]
    keys = gen.LET[:8] + ['capslock']
    c = Conf(rng, rng.sample(keys, 3), depth=2, nlayers=2)
    if typ == ipcutil.BIND:
        k = rng.choice(keys + ['a+b', 'shift', 'control', 'c+d+e', 'nosuch'])
        l = rng.choice(['', 'main.', 'l1.', 'shift.', 'nosuch.', 'lay1.', 'l1+l2.'])
        s = '%s%s = %s' % (l, k, c.action() if rng.random() < 0.93 else many_args(rng))
        if rng.random() < 0.1:
            s = 'reset'
        if rng.random() < 0.1:
            s = s.replace(' = ', rng.choice(['=', ' =', '= ', '  =  ', '\t=', '.=', ' ']))
    elif typ == ipcutil.MACRO:
        s = c.macro()
        if s.startswith('macro('):
            s = s[6:-1]
        if rng.random() < 0.2:
            s += '\n' * rng.randrange(1, 3)
    else:
        s = ''.join(rng.choice(['a', 'Z', '!', ' ', '\n', '\t', 'é', '→', '😀', '\x01', '~', '"', '中']) for _ in range(rng.choice([0, 1, 5, 40, 400, 2000])))
    b = bytearray(s.encode('utf-8', 'surrogateescape'))
    if x < 0.55:
        for _ in range(rng.randrange(1, 5)):
            i = rng.randrange(len(b) + 1)
            y = rng.random()
            if y < 0.5:
                b[i:i] = rng.choice([rbytes(rng, rng.randrange(1, 5)), rtoken(rng).encode('utf-8', 'surrogateescape')])
            elif y < 0.8:
                del b[i:i + rng.randrange(1, 4)]
            elif b:
                b[i % len(b)] = rng.randrange(256)
    if rng.random() < 0.1:
        # the last character is cut off
        b = b[:3000] + rng.choice([b'\xe0', b'\xe0\xa4', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xf0\x9f', b'\xf0', b'\xff\xff', b'\xef\xbf'])
    return bytes(b[:4095])


@check
class R05(fw.Check):
    id = 'R05'
    quick, thorough = 3500, 80000
    variants = ('asan', 'msan')
    technique = 'runtime monitoring: real daemon under ASan+UBSan and MSan with fuzzed requests; reply monitor (exactly one, well formed) and metamorphic run without the refused bindings'
    level_note = 'generated payloads; not exhaustive'
    rule = ('sequences of fuzzed bind/input/do messages (random bytes, mutated valid expressions, over-long, any size and timeout field) interleaved with typing; evaluations = requests; distinct = (request type, outcome, reason, output) seen; '
            'oracle: one reply per request, failure carries a reason, same output when the refused bindings are left out')

    def case(self, rng, i, tier):
        keys = rng.sample(gen.LET[:8] + ['capslock'], 4)
        c = Conf(rng, keys, nlayers=2, nlayouts=1, composites=1, w=dict(gen.SIMPLE, layer=3, overload=1, toggle=1, oneshot=1))
        ev = []
        t = 100000
        msgs = {}
        ty = Typist(rng)
        for cid in range(rng.randrange(3, 10)):
            typ = rng.choice([ipcutil.BIND] * 4 + [ipcutil.INPUT, ipcutil.MACRO])
            p = fuzz_payload(rng, typ)
            if rng.random() < 0.06:
                # exactly at a limit
                n = rng.choice([256, 512, 1024, 2048, 4095]) + rng.choice([-2, -1, 0, 0])
                p = rng.choice([b'a = macro(%s)', b'l1.a = %s', b'a = b%s', b'%s']) % b''
                p = p.replace(b')', b'') + bytes(rng.choice(b'abc xy') for _ in range(n - len(p) - 1)) + b')'
            if rng.random() < 0.06:
                typ = rng.choice([0, 1, 7, 8, 9, 77, 2**31 - 1, -1])     # no request at all
            sz = None if rng.random() < 0.9 else rng.choice([0, 1, 4095, 4096, 4097, 2**31 - 1, 2**31, 2**32 - 1, 2**63, 2**64 - 1])
            tmo = 0 if rng.random() < 0.7 else rng.choice([1000, 10000, 1000000, 1000001, 2**31 - 1, 2**31, 2**32 - 1])
            busy = 0
            if typ != ipcutil.BIND:     # how long the daemon may type
                busy = sum(int(x[-6:]) for x in re.findall(rb'(\d+)ms', p)) * 1000
                if tmo <= 1000000:
                    busy += tmo * (len(p) + 1)
                if busy > 4000000:
                    p = p[:3]
                busy = min(busy, 5000000)
            m = ipcutil.message(typ, p, tmo, sz)
            if sz is None and rng.random() < 0.2:
                # whatever follows the given number of bytes is not part of the request
                m = m[:8 + len(p)] + rbytes(rng, 4096 - len(p)) + m[-8:]
            if sz is None and rng.random() < 0.05 and len(p) > 1:
                n = rng.randrange(len(p))
                m = m[:-8] + struct.pack('<Q', n)
            msgs[cid] = [typ, m.hex()]
            # ipc items are keyed by cid; typing continues in between
            ty.t = max(ty.t, t)
            ev.append([ty.t, 'conn %d' % cid])
            ev.append([ty.t, 'req %d' % cid])
            ty.t += 5000000 + busy
            if rng.random() < 0.8:
                ty.random(keys + ['q'], rng.randrange(1, 6), lambda: rng.choice([1000, 30000, 300000]), maxheld=3)
            t = ty.t
        ty.release_all()
        ev += ty.ev
        ev.sort(key=lambda e: e[0])
        ev = [[e[0] // 1000 * 1000] + e[1:] for e in ev]    # an extra wake-up may cost up to 1 ms otherwise
        return dict(confs={'default.conf': c.text()}, ev=ev, msgs=msgs, end=ty.t + 3000000, msan=i % 4 == 3)

    def scn(self, case, skip=()):
        ev = []
        for e in case['ev']:
            if isinstance(e[1], str) and e[1].startswith(('conn', 'req')):
                cid = e[1].split()[1]
                if int(cid) in skip:
                    continue
                if e[1].startswith('req'):
                    m = case['msgs'].get(cid) or case['msgs'].get(int(cid))
                    ev.append([e[0], 'send %s %s' % (cid, payload(bytes.fromhex(m[1])))])
                    continue
            ev.append(e)
        return engine.scenario(dict(case, ev=ev))

    def run_case(self, ctx, case):
        v = 'msan' if case['msan'] else 'asan'
        r = ctx.run(self.scn(case), v)
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        rep, closed = {}, {}
        for f in r.lines:
            if f[0] == 'CR':
                rep[int(f[2])] = rep.get(int(f[2]), b'') + bytes.fromhex(f[3])
            elif f[0] == 'CE':
                closed[int(f[2])] = f[3]
        present = {int(e[1].split()[1]) for e in case['ev'] if isinstance(e[1], str) and e[1].startswith('req')}
        present &= {int(e[1].split()[1]) for e in case['ev'] if isinstance(e[1], str) and e[1].startswith('conn')}
        failed, sig = set(), set()
        for cid in present:
            typ = (case['msgs'].get(str(cid)) or case['msgs'].get(cid))[0]
            b = rep.get(cid, b'')
            if len(b) != ipcutil.SIZE:
                return Out(viol='request %d was answered with %d bytes instead of one reply of %d' % (cid, len(b), ipcutil.SIZE))
            if cid not in closed:
                return Out(viol='connection %d is left open after the reply' % cid)
            t, data = ipcutil.parse(b)
            if t not in (ipcutil.SUCCESS, ipcutil.FAIL):
                return Out(viol='request %d got a reply of type %d' % (cid, t))
            if t == ipcutil.FAIL and not data.strip(b'\0\n'):
                return Out(viol='request %d failed without a reason' % cid)
            if t == ipcutil.FAIL and typ == ipcutil.BIND:
                failed.add(cid)
            if t != ipcutil.FAIL and typ not in (ipcutil.BIND, ipcutil.INPUT, ipcutil.MACRO):
                return Out(viol='a message of type %d, which does not exist, is answered with success' % typ)
            sig.add((typ, t, re.sub(rb'[^a-z ]', b'', data[:40])))
        a = keyouts(r.lines)
        clean = {}
        for k, (typ, h) in case['msgs'].items():
            m = bytes.fromhex(h)
            n = struct.unpack('<Q', m[-8:])[0]
            if n < 4096:
                m = m[:8 + n] + b'\0' * (4096 - n) + m[-8:]
            clean[k] = [typ, m.hex()]
        if clean != case['msgs']:
            r2 = ctx.run(self.scn(dict(case, msgs=clean)), v)
            if r2.inconclusive():
                return Out(inconclusive='harness')
            if r2.died():
                return Out(viol=r2.died())
            b = keyouts(r2.lines)
            if a != b:
                return Out(viol='bytes beyond the size of a request matter: %s' % (next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b))),))
            r3 = {}
            for f in r2.lines:
                if f[0] == 'CR':
                    r3[int(f[2])] = r3.get(int(f[2]), b'') + bytes.fromhex(f[3])
            if {c: ipcutil.parse(x)[0] for c, x in r3.items()} != {c: ipcutil.parse(x)[0] for c, x in rep.items()}:
                return Out(viol='bytes beyond the size of a request change the reply')
        if failed:
            r2 = ctx.run(self.scn(case, failed), v)
            if r2.inconclusive():
                return Out(inconclusive='harness')
            if r2.died():
                return Out(viol=r2.died())
            b = keyouts(r2.lines)
            if a != b:
                return Out(viol='refused bindings changed what the keys do: %s' % (next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b))),))
        return Out(sig=sig | {fw.hashlib.md5(repr(a).encode()).hexdigest()}, n=len(present), counts={'requests': len(present), 'refused bindings': len(failed), 'refused': sum(1 for c in present if ipcutil.parse(rep[c])[0] == ipcutil.FAIL)})
