"""A01-A04: the USB gadget backend, the application mapper, the GNOME extensions and the command line clients."""
import base64, fcntl, json, os, random, re, select, shutil, signal, socket, struct, subprocess, sys, threading, time
import fw, engine, gen, ipcutil, model, sim, spec, build
from fw import Out
from gen import Conf, Typist, delays, rand_glob
from model import Model

C = spec.NAMES
CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


# what a host makes of keyboard usages: the kernel's hid_keyboard table, not keyd's
USAGE = {}
for _u, _c in enumerate('''0 0 0 0 30 48 46 32 18 33 34 35 23 36 37 38 50 49 24 25 16 19 31 20 22 47 17 45 21 44 2 3 4 5 6 7 8 9 10 11 28 1 14 15 57 12 13 26
27 43 0 39 40 41 51 52 53 58 59 60 61 62 63 64 65 66 67 68 87 88 99 70 119 110 102 104 111 107 109 106 105 108 103 69 98 55 74 78 96 79 80 81 75 76 77 71
72 73 82 83 86 127 116 117 183 184 185 186 187 188 189 190 191 192 193 194 134 138 130 132 128 129 131 137 133 135 136 113 115 114 0 0 0 121 0 89 93 124 92 94
95 0 0 0 122 123 90 91 85'''.split()):
    if _c != '0':
        USAGE[int(_c)] = _u
USAGE.update({179: 0xb6, 180: 0xb7, 118: 0xd7})
# keys the backend has no usage for
for _c in (95, 128, 130, 85):
    USAGE.pop(_c, None)
USAGE[85] = 0x94
MODBIT = {29: 1, 42: 2, 56: 4, 125: 8, 97: 16, 54: 32, 100: 64, 126: 128}


@check
class A01(fw.Check):
    id = 'A01'
    variants = ('hid',)
    quick, thorough = 15000, 150000
    technique = ('runtime monitoring: every report the USB gadget build of the daemon (ASan+UBSan) writes, against a slot model fed with the key output of the executable specification and an independent table of HID usages')
    level_note = 'random configs and histories, with up to 12 keys held; not exhaustive. Writes never fail here'
    rule = ('random configs and typing (up to 12 keys held, all keys of the table, macros, modifiers on both sides, keys without a usage); evaluations = reports; distinct = reports; '
            'oracle: one 8-byte report per key event, modifier byte and slots exactly as the model has them; all zero once everything is released')

    def case(self, rng, i, tier):
        pool = sorted(set(USAGE) | set(MODBIT))
        if i % 2:
            c = None
            keys = [spec.NAME[k] for k in rng.sample(pool, 14)] + rng.sample(['volumeup', 'brightnessup', 'stop', 'wlan', 'leftshift', 'rightalt'], 2)
            conf = '[ids]\n*\n[main]\n' + rng.choice(['', 'shift = leftshift\nrightmeta = rightmeta\nrightalt = rightalt\nrightcontrol = rightcontrol\nrightshift = rightshift\n'])
            tm = []
        else:
            keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'leftshift', 'rightshift', 'leftalt', 'rightalt', 'f13'], rng.randrange(3, 7))
            c = Conf(rng, keys, depth=1, chords=rng.choice([0, 0.3]), glob=rand_glob(rng, 0.15), out=gen.SYM + [spec.NAME[k] for k in rng.sample(pool, 20)])
            conf = c.text()
            tm = c.timeouts()
        ty = Typist(rng, t=100000)
        d = delays(rng, tm or [50])
        ty.random(keys, rng.randrange(20, 90), d, maxheld=rng.choice([3, 7, 12]))
        ty.release_all(d)
        return dict(confs={'c.conf': conf}, ev=ty.ev, end=ty.t + 5000000)

    def shrink(self, case):
        g = fw.strokes(case['ev'])
        for a, b in fw.chunks(g, 2) if len(g) > 1 else ():
            drop = {i for x in g[a:b] for i in x}
            yield dict(case, ev=[e for i, e in enumerate(case['ev']) if i not in drop])
        yield from fw.generic_shrink(case)

    def run_case(self, ctx, case):
        r = ctx.run(engine.scenario(case), 'hid')
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        m = Model([spec.Config(case['confs']['c.conf'])], {0: 0})
        m.run(r.lines, engine.START)
        mods, slots, exp = 0, [0] * 6, []
        held = []
        for e in m.sink.outs:
            if e[2] != 1:
                continue
            code, val = e[3], e[4]
            if code in MODBIT:
                mods = mods | MODBIT[code] if val else mods & ~MODBIT[code]
            else:
                u = USAGE.get(code, 0)
                if u and val and u not in slots and 0 in slots:
                    slots[slots.index(0)] = u
                if u and not val and u in slots:
                    slots[slots.index(u)] = 0
            exp.append(bytes([mods, 0] + slots).hex())
            held.append((code, val))
        got = [f[2] for f in r.lines if f[0] == 'HID']
        if exp != got:
            k = next((k for k, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
            return Out(viol='report %d, after key events %s, should be %s but is %s' % (k, held[max(0, k - 6):k + 1], exp[k] if k < len(exp) else 'absent', got[k] if k < len(got) else 'absent'))
        if got and not any(v for c, v in self.final(held)) and int(got[-1], 16):
            return Out(viol='everything is released but the last report is %s' % got[-1])
        return Out(sig=set(got), n=len(got), counts={'reports': len(got)})

    @staticmethod
    def final(held):
        s = {}
        for c, v in held:
            s[c] = v
        return s.items()


def collect(stream, buf):
    while True:
        b = os.read(stream, 65536)
        if not b:
            return
        buf.append(b)


class Server(threading.Thread):
    """accepts clients one after another and answers each as planned"""

    def __init__(self, path, plans):
        super().__init__(daemon=True)
        self.plans, self.got, self.errs = plans, [], []
        self.sd = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sd.bind(path)
        self.sd.listen(20)
        self.sd.settimeout(0.02)
        self.done = False

    def run(self):
        k = 0
        while not self.done:
            try:
                c, _ = self.sd.accept()
            except OSError:
                continue
            c.settimeout(20)
            data = b''
            try:
                while len(data) < ipcutil.SIZE:
                    b = c.recv(ipcutil.SIZE - len(data))
                    if not b:
                        break
                    data += b
                plan = self.plans[k] if k < len(self.plans) else dict(reply=ipcutil.message(ipcutil.FAIL, b'too many').hex(), cut=[])
                k += 1
                c.settimeout(0.02)
                try:
                    extra = c.recv(10)
                except OSError:
                    extra = b''
                self.got.append(data + extra)
                c.settimeout(20)
                r = bytes.fromhex(plan['reply'])
                at = 0
                for n in plan['cut'] + [len(r)]:
                    if n > at:
                        c.sendall(r[at:n])
                        at = n
                        if plan.get('gap'):
                            time.sleep(plan['gap'])
            except OSError as e:
                self.errs.append(str(e))
            c.close()

    def stop(self):
        self.done = True
        self.join(5)
        self.sd.close()


TXT = ['a', 'a = b', 'reset', 'control.j = macro(x y)', 'hello world', 'é', 'ünï', '-', '-t', '-h', '--help', '', ' ', 'a b', '%s%n', '\\', 'macro(a)', '= = a', 'x' * 300, 'tab\there', 'new\nline', '-1', '5', '- = C-c']


@check
class A03(fw.Check):
    id = 'A03'
    variants = ('cli', 'asan')
    quick, thorough = 6200, 62000
    technique = ('runtime monitoring: the real client program (ASan+UBSan) against a recording server on a scratch socket: bytes received, standard output and exit status; '
                 'the monitor client on the simulated kernel: its output against the device history, capture requests recorded')
    level_note = 'random arguments, replies and device histories; not exhaustive'
    rule = ('bind/input/do/reload/listen with 0-4 arguments or standard input (empty, spaces, options as text, unicode, up to and beyond the maximum length), replies of either kind with and without text, split arbitrarily, server absent; '
            'monitor with up to 8 devices (any kind and name) typing, moving, appearing and vanishing; evaluations = invocations, or lines of monitor; distinct = (command, outcome), lines; '
            'oracle: exactly the expected requests in order, reply text printed, exit status zero only if every reply is a success; listen prints every byte; monitor prints exactly the expected lines and captures nothing')

    def case(self, rng, i, tier):
        if i % 3 == 0:
            return self.monitor_case(rng)
        cmd = rng.choice(['bind', 'bind', '-e', '--expression', 'input', 'input', 'do', 'do', 'reload', 'listen'])
        args, stdin, exp = [], None, []
        tx = lambda: rng.choice(TXT) if rng.random() < 0.7 else ''.join(rng.choice('abc =.()-é\U0001f600') for _ in range(rng.choice([3, 30, 200])))
        over = False
        if cmd in ('bind', '-e', '--expression'):
            args = [tx() for _ in range(rng.randrange(0, 5))]
            if rng.random() < 0.1:
                args.append('z' * rng.choice([4095, 4096, 4097, 5000]))
            for a in args:
                b = a.encode()
                if len(b) > 4096:
                    over = True
                    break
                exp.append((ipcutil.BIND, b, 0))
        elif cmd in ('input', 'do'):
            typ = ipcutil.INPUT if cmd == 'input' else ipcutil.MACRO
            tmo = 0
            if rng.random() < 0.4:
                tmo = rng.choice([0, 1, 50, 100000])
                args = ['-t', str(tmo)]
            if rng.random() < 0.6:
                words = [tx() for _ in range(rng.randrange(1, 4))]
                if rng.random() < 0.1:
                    words.append('z' * rng.choice([4000, 4090, 4095, 4096, 6000]))
                if not args:
                    while words[0] == '-t':
                        words[0] = tx()
                args += words
                b = ' '.join(words).encode()
                over = len(b) >= 4096
            else:
                b = '\n'.join(tx() for _ in range(rng.randrange(0, 4))).encode()
                if rng.random() < 0.15:
                    b = b'y' * rng.choice([4094, 4095, 4096, 9000])
                if rng.random() < 0.1:
                    b += b'\0\xff'
                stdin = b.hex()
                over = len(b) >= 4096
            if not over:
                exp.append((typ, b, tmo))
        elif cmd == 'reload':
            exp.append((ipcutil.RELOAD, b'', 0))
        else:
            exp.append((ipcutil.LISTEN, b'', 0))
        plans = []
        for e in exp:
            if cmd == 'listen':
                r = ''.join(rng.choice(['+', '-', '/']) + rng.choice(['main', 'control', 'l1', 'x' * 50]) + '\n' for _ in range(rng.choice([0, 1, 5, 60, 400]))).encode()
                if rng.random() < 0.2:
                    r = r[:-3]
            else:
                ok = rng.random() < 0.75
                data = rng.choice([b'', b'', b'some text', 'ünsupported %s'.encode(), b'q' * 4096, b'a\nb'])
                r = ipcutil.message(ipcutil.SUCCESS if ok else ipcutil.FAIL, data)
            plans.append(dict(reply=r.hex(), cut=sorted(rng.randrange(0, len(r) + 1) for _ in range(rng.choice([0, 0, 3])))))
            if len(plans[-1]['cut']) and rng.random() < 0.5:
                plans[-1]['gap'] = 0.003
        case = dict(kind='cli', cmd=cmd, args=args, stdin=stdin, over=over, exp=[(t, d.hex(), o) for t, d, o in exp], plans=plans)
        if stdin and rng.random() < 0.5:
            n = len(stdin) // 2
            case['pieces'] = sorted(rng.randrange(0, n + 1) for _ in range(rng.randrange(1, 5)))
        if rng.random() < 0.05 and exp:
            case['noserver'] = 1
        return case

    def monitor_case(self, rng):
        devs, ev, t = [], [], 300000
        n = rng.randrange(1, 9)
        names = ['kbd', 'A Keyboard', 'AT Translated Set 2 keyboard', 'r{x} %s', 'naïve', '(odd) name', 'tab-less', 'keyd virtual keyboard', 'a' * 60]
        for i in range(n):
            k = rng.choice(['kbd', 'kbd', 'mouse', 'volume', 'nothing', 'virtual', 'broken'])
            d = dict(i=i, vendor=rng.randrange(1, 0xffff), product=rng.randrange(1, 0xffff), name=rng.choice(names), present=rng.randrange(2))
            if k == 'mouse':
                d.update(key='272-279', rel='0,1,6,8')
            elif k == 'volume':
                d.update(key='114,115')
            elif k == 'nothing':
                d.update(key='300-310')
            elif k == 'virtual':
                d.update(vendor=0x0fac)
            elif k == 'broken':
                d.update(fail=rng.choice([1, 2, 4, 8]))
            devs.append(d)
        up = {d['i'] for d in devs if d['present']}
        held = {}
        for _ in range(rng.randrange(5, 80)):
            t += rng.choice([1000, 5000, 50000, 500000])
            x = rng.random()
            if x < 0.08 and len(up) < n:
                i = rng.choice([d['i'] for d in devs if d['i'] not in up])
                ev.append([t, 'add %d' % i])
                up.add(i)
                t += 200000
            elif x < 0.16 and up:
                i = rng.choice(sorted(up))
                ev.append([t, 'rm %d %d' % (i, rng.randrange(2))])
                up.discard(i)
                held.pop(i, None)
                t += 200000
            elif up:
                i = rng.choice(sorted(up))
                if x < 0.3:
                    ev.append([t, 'ev %d 2 %d %d' % (i, rng.choice([0, 1, 8]), rng.randrange(-5, 6))])
                    continue
                h = held.setdefault(i, set())
                c = rng.choice([30, 31, 48, 57, 1, 272, 273, 115, 500, 183, 0x1d0])
                if c in h and rng.random() < 0.2:
                    ev.append([t, 'ev %d 1 %d 2' % (i, c)])
                    continue
                ev.append([t, i, c, int(c not in h)])
                h ^= {c}
        return dict(kind='monitor', devs=devs, ev=ev, tflag=rng.randrange(2), end=t + 1000000)

    def shrink(self, case):
        if case['kind'] == 'monitor':
            for a, b in fw.chunks(case['ev'], 4) if case['ev'] else ():
                yield dict(case, ev=case['ev'][:a] + case['ev'][b:])

    def run_case(self, ctx, case):
        if case['kind'] == 'monitor':
            return self.run_monitor(ctx, case)
        d = os.path.join(ctx.scratch, 'cli')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/run')
        srv = None
        if not case.get('noserver'):
            srv = Server(os.path.join(d, 'run/keyd.socket'), case['plans'])
            srv.start()
        try:
            p = subprocess.Popen([ctx.bin('cli'), case['cmd']] + case['args'], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
            try:
                text = bytes.fromhex(case['stdin'] or '')
                cut = [0] + case.get('pieces', []) + [len(text)]
                for a, b in zip(cut[:-1], cut[1:-1]):
                    # a pipe which fills little by little
                    try:
                        p.stdin.write(text[a:b])
                        p.stdin.flush()
                    except OSError:
                        pass
                    time.sleep(0.004)
                out, err = p.communicate(text[cut[-2]:], timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return Out(viol='%s %r does not end' % (case['cmd'], case['args']))
        finally:
            if srv:
                srv.stop()
        what = '%s %s' % (case['cmd'], [a if len(a) < 60 else '%s... (%d bytes)' % (a[:20], len(a.encode())) for a in case['args']])
        if case['stdin'] is not None:
            what += ' with %d bytes on standard input' % (len(case['stdin']) // 2)
        if sim.SAN_RE.search(err.decode('utf-8', 'replace')) or p.returncode < 0:
            return Out(viol='%s: %s' % (what, err.decode('utf-8', 'replace')[:400] or 'signal %d' % -p.returncode))
        if case.get('noserver'):
            if p.returncode == 0:
                return Out(viol='%s succeeds without a daemon' % what)
            return Out(sig=[(case['cmd'], 'noserver')], counts={'without daemon': 1})
        exp = [ipcutil.message(t, bytes.fromhex(h), tmo) for t, h, tmo in case['exp']]
        if srv.got != exp:
            k = next((k for k, (a, b) in enumerate(zip(exp, srv.got)) if a != b), min(len(exp), len(srv.got)))
            show = lambda L: 'nothing' if k >= len(L) else '%d bytes, type %d, timeout %d, size %d, data %r' % ((len(L[k]),) + struct.unpack_from('<iI', L[k].ljust(4112)) + struct.unpack_from('<Q', L[k].ljust(4112), 4104) + (L[k][8:60].rstrip(b'\0'),))
            return Out(viol='%s: request %d should be %s but is %s' % (what, k, show(exp), show(srv.got)))
        text, fail = b'', case['over']
        for pl in case['plans']:
            r = bytes.fromhex(pl['reply'])
            if case['cmd'] == 'listen':
                text += r
                fail = None
                continue
            typ, data = ipcutil.parse(r)
            fail = fail or typ == ipcutil.FAIL
            if data:
                text += data + b'\n'
        if case['cmd'] in ('bind', '-e', '--expression') and not fail:
            text += b'Success\n'
        if out != text:
            return Out(viol='%s prints %r instead of %r' % (what, out[:200], text[:200]))
        if fail is not None and (p.returncode != 0) != bool(fail):
            return Out(viol='%s: exit status %d although the daemon reported %s' % (what, p.returncode, 'a failure' if fail else 'success'))
        return Out(sig=[(case['cmd'], bool(fail), len(exp), len(out), case['stdin'] is not None)], counts={'requests': len(exp), 'bytes printed': len(out), 'failures reported': int(bool(fail)), case['cmd']: 1})

    def run_monitor(self, ctx, case):
        sc = sim.Scn()
        sc.arg('monitor')
        if case['tflag']:
            sc.arg('-t')
        sc.opt('start', engine.START)
        for d in case['devs']:
            d = dict(d)
            sc.dev(d.pop('i'), **d)
        for e in case['ev']:
            if isinstance(e[1], str):
                sc.at(e[0], e[1])
            else:
                sc.key(*e)
        sc.at(case['end'], 'end')
        r = ctx.run(sc).load()
        if r.inconclusive():
            return Out(inconclusive='harness')
        if r.died():
            return Out(viol=r.died())
        if any(f[0] in ('G', 'GF') for f in r.lines):
            return Out(viol='monitor captures a device')
        if any(f[0] in ('UCREATE', 'L') for f in r.lines):
            return Out(viol='monitor creates a device or writes to one')
        devs = {d['i']: d for d in case['devs']}
        good = lambda d: not d.get('fail') and d.get('key') != '300-310'
        got = r.stdout.split('\n')
        if got and got[-1] == '':
            got.pop()
        # devices present at the start come in any order
        at, ids = 0, {}
        per = {i: [] for i in devs}
        add = lambda l: re.match(r'device added: (\S+) (.*) \(/dev/input/event(\d+)\)$', l)
        lines = []
        last = None
        for l in got:
            if not l.startswith('device ') and '\t' not in l:
                # diagnostics
                continue
            m = re.match(r'\+(-?\d+) ms\t(.*)$', l) if case['tflag'] else None
            lines.append((int(m.group(1)) if m else None, m.group(2) if m else l))
        start = sorted(i for i, d in devs.items() if d['present'] and good(d))
        for _, l in lines[:len(start)]:
            m = add(l)
            if not m or int(m.group(3)) not in start or int(m.group(3)) in ids:
                return Out(viol='monitor should first show the devices %s but shows %r' % (start, l))
            i = int(m.group(3))
            ids[i] = m.group(1)
            if m.group(2) != devs[i]['name'] or not m.group(1).startswith('%04x:%04x:' % (devs[i]['vendor'], devs[i]['product'])):
                return Out(viol='device %d (%s) is shown as %r' % (i, devs[i]['name'], l))
        exp = []
        down = {}
        removed = {}
        # what was read, in the order it was read
        for k, f in enumerate(r.lines):
            if f[0] == 'I' and int(f[2]) in devs:
                i, ty, code, val = int(f[2]), int(f[3]), int(f[4]), int(f[5])
                us = int(f[1])
                if ty == 1 and val != 2:
                    c = model.LOW.get(code, code if code < 256 else model.HIGH.get(code))
                    if c is None:
                        continue
                    if c == spec.EXTMOUSE:
                        exp.append((us, '?'))
                        continue
                    exp.append((us, '%s\t%s\t%s %s' % (devs[i]['name'], '@%d' % i, spec.NAME[c], 'down' if val else 'up')))
                elif ty == 2 and code in (0, 1, 6, 8) and val:
                    exp.append((us, None))
                elif ty != 0:
                    exp.append((us, '?'))
            elif f[0] == 'OPEN' and int(f[2]) in devs and int(f[1]) > 0:
                if good(devs[int(f[2])]):
                    exp.append((int(f[1]), '+%d' % int(f[2])))
            elif f[0] == 'CLOSE' and int(f[2]) in devs and good(devs[int(f[2])]) and int(f[1]) < case['end']:
                exp.append((int(f[1]), '-%d' % int(f[2])))
        k = len(start)
        n = 0
        prev = None
        for us, x in exp:
            before, prev = prev, (us, x)
            if x is None or x == '?':
                continue
            if k >= len(lines):
                return Out(viol='monitor does not show %r at %d us' % (x, us))
            dt, l = lines[k]
            k += 1
            n += 1
            if dt is not None and before and before[1] != '?' and abs(dt - (us - before[0]) / 1000) > 2:
                return Out(viol='monitor -t: %r comes %d us after what precedes it but shows %d ms' % (x, us - before[0], dt))
            if dt is None and case['tflag'] and before and x[0] not in '+-' and before[1] != '?':
                return Out(viol='monitor -t shows no time for %r' % x)
            if x[0] == '+' and x[1:].isdigit():
                m = add(l)
                i = int(x[1:])
                if not m or int(m.group(3)) != i or m.group(2) != devs[i]['name'] or (i in ids and ids[i] != m.group(1)):
                    return Out(viol='device %d appearing at %d us is shown as %r' % (i, us, l))
                ids[i] = m.group(1)
            elif x[0] == '-' and x[1:].isdigit():
                i = int(x[1:])
                w = 'device removed: %s %s (/dev/input/event%d)' % (ids.get(i), devs[i]['name'], i)
                if l != w:
                    return Out(viol='device %d vanishing at %d us should be shown as %r but is %r' % (i, us, w, l))
            else:
                i = int(re.search(r'\t@(\d+)\t', x).group(1))
                w = x.replace('\t@%d\t' % i, '\t%s\t' % ids.get(i))
                if l != w:
                    return Out(viol='at %d us monitor should print %r but prints %r' % (us, w, l))
        if k < len(lines):
            return Out(viol='monitor prints %r for nothing that happened' % lines[k][1])
        return Out(sig={x for _, x in exp if x and x != '?'}, n=n, counts={'monitor lines': n, 'devices shown': len(ids)})


STUB = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
int main(int argc, char **argv)
{
	static char buf[200000];
	size_t n = 0;
	int i, fd = open(getenv("KEYD_STUB_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
	for (i = 1; i < argc; i++) {
		size_t l = strlen(argv[i]) + 1;
		if (n + l + 2 > sizeof buf) return 9;
		memcpy(buf + n, argv[i], l);
		n += l;
	}
	buf[n++] = 1;
	buf[n++] = 0;
	return write(fd, buf, n) != n;
}
'''


def glob_match(p, s):
    """unix wildcards, written out"""
    if not p:
        return not s
    if p[0] == '*':
        return any(glob_match(p[1:], s[k:]) for k in range(len(s) + 1))
    if p[0] == '?':
        return bool(s) and glob_match(p[1:], s[1:])
    if p[0] == '[' and ']' in p[2:]:
        e = p.index(']', 2)
        body = p[1:e]
        neg = body[0] == '!'
        body = body[neg:]
        return bool(s) and (s[0] in body) != neg and glob_match(p[e + 1:], s[1:])
    return bool(s) and s[0] == p[0] and glob_match(p[1:], s[1:])


def squash(s, keep):
    out = ''
    for ch in s:
        if keep(ch):
            out += ch
        elif not out.endswith('-'):
            out += '-'
    return out.strip('-').lower()


def norm_class(s):
    return squash(s, lambda c: c.isascii() and c.isalnum())


def norm_title(s):
    return squash(s, str.isalnum)


def parse_app(text):
    out = []
    for l in text.split('\n'):
        l = l.strip()
        if l.startswith('[') and l.endswith(']') and not (l[1:].lstrip()[:1] == '=' or l[1] == '+' and '=' in l.split('|')[0]):
            f = l[1:-1].split('|')
            out.append((f[0], f[1] if len(f) > 1 else '*', []))
        elif l and l[0] != '#':
            out[-1][2].append(l)
    return out


def wanted(app, cls, title):
    c, t = norm_class(cls), norm_title(title)
    return ['bind', 'reset'] + [b for ce, te, bs in app if glob_match(ce, c) and glob_match(te, t) for b in bs]


CLS = ['kitty', 'Firefox', 'st-256color', 'org.gnome.Terminal', 'Gimp-2.10', 'code oss', 'XTerm', 'üBersicht', 'a.b_c', 'root', '$(touch pwned)', '`touch pwned`', '; touch pwned', "it's", '"quoted"', '-e', '--help', 'a|b', '[x]', '日本']
TTL = ['', 'vim', 'README.md - editor', 'Inbox (3) — Mail', 'naïve café', '$(touch pwned)', '`touch pwned`', "; touch pwned #", '"', "'", '100% done', '-t', '*', '[1] [2]', '日本語 タイトル', 'a_b__c', ' padded ', '| pipe |', 'x' * 900, '\\n\\t', 'emoji \U0001f600 here', '...']
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs', 'desktop')
FILT = ['kitty', 'firefox', 'st-*', '*', 'org-gnome-terminal', 'gimp-2-10', 'code-oss', 'xterm', '*term*', 'f?refox', '[kx]*', '[!k]*', 'a-b-c', 'Kitty', 'bersicht', '', 'it-s']
TFILT = ['*', '*', 'vim', '*mail*', 'readme-md-editor', '*editor', 'na*', '100-done', '', '?', '*日本語*', 'a-b-c', 'padded', 'x*x']
BINDS = ['a = b', '[ = ]', '[+a=]', 'alt.] = C-tab', 'control.1 = macro(Inside space chrome!)', '- = C-c', '= = x', 'j = macro($(touch pwned))', "k = 'x'", 'l = "; touch pwned"', 'main.x = layer(nav)', '#notcomment', 'é = ü', 'reset', 'b = %s%n', '-e']


class Wl(threading.Thread):
    """a compositor, as far as the mapper needs one"""

    def __init__(self, path, want, skip):
        super().__init__(daemon=True)
        self.sd = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sd.bind(path)
        self.sd.listen(5)
        self.want, self.skip = want, skip
        self.ready = threading.Event()
        self.err = None
        self.conn = None
        self.dead = False

    def run(self):
        try:
            while not self.dead:
                c, _ = self.sd.accept()
                if self.serve(c):
                    self.conn = c
                    self.ready.set()
                    return
        except OSError:
            pass

    def msg(self, obj, op, data):
        return struct.pack('<II', obj, (len(data) + 8) << 16 | op) + data

    @staticmethod
    def string(s):
        b = s.encode() + b'\0'
        return struct.pack('<I', len(b)) + b + b'\0' * (-len(b) % 4)

    def serve(self, c):
        c.settimeout(20)

        def rd(n):
            b = b''
            while len(b) < n:
                x = c.recv(n - len(b))
                if not x:
                    raise OSError('closed')
                b += x
            return b

        def req():
            o, w = struct.unpack('<II', rd(8))
            return o, w & 0xffff, rd((w >> 16) - 8)
        try:
            reg, ann = None, b''
            while True:
                o, op, d = req()
                if (o, op) == (1, 1):
                    reg = struct.unpack('<I', d)[0]
                    for k, n in enumerate(self.skip + [self.want, 'wl_output']):
                        c.sendall(self.msg(reg, 0, struct.pack('<I', 10 + k) + self.string(n) + struct.pack('<I', 3)))
                elif (o, op) == (1, 0):
                    c.sendall(self.msg(struct.unpack('<I', d)[0], 0, struct.pack('<I', 1)))
                elif o == reg and op == 0:
                    w = struct.pack('<I', 10 + len(self.skip)) + self.string(self.want) + struct.pack('<I', 3) + struct.pack('<I', 4)
                    if d != w:
                        self.err = 'the mapper binds %r, not %r' % (d, w)
                    return True
        except (OSError, struct.error):
            c.close()
            return False

    def stop(self):
        self.dead = True
        for s in (self.conn, self.sd):
            try:
                s and s.close()
            except OSError:
                pass


class XTree:
    """which window the mapper has to take as the active one, and what it is called"""

    def __init__(self):
        self.wins, self.focus, self.last = {2: dict(parent=0)}, 1, None

    def floating(self):
        return [i for i, w in self.wins.items() if (w.get('_NET_WM_STATE') or [''])[0] == '_NET_WM_STATE_ABOVE' and '_NET_WM_WINDOW_TYPE_NOTIFICATION' not in (w.get('_NET_WM_WINDOW_TYPE') or [])]

    def subtree(self, i):
        return [i] + [x for k, w in self.wins.items() if w['parent'] == i for x in self.subtree(k)]

    def apply(self, m):
        """a command; what is to be reported, if anything"""
        for i, w in m.get('wins', {}).items():
            self.wins[int(i)] = dict(self.wins.get(int(i), dict(parent=2)), **w)
        for i in m.get('gone', []):
            self.wins.pop(i, None)
        self.focus = m.get('focus', self.focus)
        i = (self.floating() + [self.focus])[0]
        if i not in self.wins:
            return None
        while i and not self.wins[i].get('class'):
            i = self.wins[i]['parent']
        r = ('root', '')
        if i:
            w, t = self.wins[i], ''
            try:
                t = bytes.fromhex(w['_NET_WM_NAME']).decode('utf-8')
            except (TypeError, KeyError, UnicodeDecodeError):
                t = bytes.fromhex(w.get('WM_NAME') or '').decode('latin-1')
            r = (w['class'][1], t)
        if r == self.last:
            return None
        self.last = r
        return r


def near(rng, s):
    """a name much like another one"""
    k = [i for i, c in enumerate(s) if c.isascii() and c.isalnum()]
    if not k or rng.random() < 0.2:
        return s + rng.choice('xyz019')
    k = rng.choice(k)
    return s[:k] + rng.choice('abcXYZ123') + s[k + rng.choice([0, 1, 1, 1]):]


def xcommands(rng, tree, nid, n, CLS, TTL):
    """what happens to windows under X"""
    for _ in range(n):
        own = [i for i, w in tree.wins.items() if i != 2]
        named = [i for i in own if tree.wins[i].get('class')]
        ttl, m = rng.choice(TTL), {}

        def names(t):
            d = {}
            x = rng.random()
            d['_NET_WM_NAME'] = None if x < 0.3 else t.encode().hex() if x < 0.85 else (t.encode('latin-1', 'replace') + b'\xff\xe9').hex()
            d['WM_NAME'] = rng.choice([None, t, t, 'legacy ' + t])
            if d['WM_NAME'] is not None:
                d['WM_NAME'] = d['WM_NAME'].encode('latin-1', 'replace').hex()
            return d
        x = rng.random()
        if x < 0.4 or not named:
            parent = 2
            w = {}
            if rng.random() < 0.5:
                w[nid[0]] = dict(parent=2)
                parent = nid[0]
                nid[0] += 1
            top = nid[0]
            cls = rng.choice(CLS)
            w[top] = dict(parent=parent, **names(ttl))
            w[top]['class'] = [rng.choice(['inst', cls.lower(), '']), cls] if rng.random() < 0.9 else None
            kinds = ['_NET_WM_WINDOW_TYPE_NORMAL', '_NET_WM_WINDOW_TYPE_DIALOG']
            if rng.random() < 0.3:
                w[top]['_NET_WM_WINDOW_TYPE'] = rng.choice([['_NET_WM_WINDOW_TYPE_NOTIFICATION'], [kinds[0], '_NET_WM_WINDOW_TYPE_NOTIFICATION'], kinds[:1], kinds])
            y = rng.random()
            if y < 0.3 and '_NET_WM_WINDOW_TYPE_NOTIFICATION' in w[top].get('_NET_WM_WINDOW_TYPE', []) or y < 0.15 and not tree.floating():
                w[top]['_NET_WM_STATE'] = ['_NET_WM_STATE_ABOVE']
            elif y < 0.4:
                w[top]['_NET_WM_STATE'] = rng.choice([[], ['_NET_WM_STATE_FOCUSED'], ['_NET_WM_STATE_MAXIMIZED_VERT']])
            nid[0] += 1
            if rng.random() < 0.4:
                w[nid[0]] = dict(parent=top)
                nid[0] += 1
            m = dict(wins=w)
            if rng.random() < 0.7:
                m['focus'] = rng.choice(list(w))
        elif x < 0.6:
            m = dict(focus=rng.choice(own + [0, 1, 2]))
        elif x < 0.8:
            m = dict(wins={rng.choice(named): names(ttl)})
        elif x < 0.9 and tree.floating():
            m = dict(wins={tree.floating()[0]: {'_NET_WM_STATE': []}})
        else:
            m = dict(gone=tree.subtree(rng.choice(own)))
            if rng.random() < 0.6:
                left = [i for i in own if i not in m['gone']]
                m['focus'] = rng.choice(left + [1, 2])
        m = json.loads(json.dumps(m))
        tree.apply(m)
        yield m


@check
class A02(fw.Check):
    id = 'A02'
    variants = ()
    quick, thorough = 1500, 28000
    technique = ('runtime monitoring: the real mapper script under a stand-in desktop (GNOME pipe, wlroots and cosmic compositors speaking the wire protocol; python-xlib, DBus and the script host of KWin replaced by stand-ins) with a recording stand-in for keyd; its invocations against an independent matcher and the focus history')
    level_note = 'random app.conf files, names and focus histories; not exhaustive. KDE and X without their libraries: stand-ins play what the mapper calls'
    rule = ('1-6 sections with globs on class and title, 1-40 focus changes (half of the runs: a few names which differ in one character; names with shell syntax, quotes, options, wildcards, tabs, unicode, up to 900 characters), sent singly, in bursts and cut at arbitrary bytes; identical windows opened and closed; app.conf changed meanwhile; SIGUSR1; reader left idle; '
            'evaluations = focus changes; distinct = (backend, argument vectors); oracle: each change is followed by one "keyd bind reset ..." with exactly the bindings of the matching sections in file order, nothing else is run or created, the mapper lives on')

    def case(self, rng, i, tier):
        CLS, TTL, FILT, TFILT, PF = globals()['CLS'], globals()['TTL'], globals()['FILT'], globals()['TFILT'], 0.7
        if rng.random() < 0.5:
            # few windows, told apart by little
            CLS, TTL, PF = rng.sample(CLS, 2), rng.sample(TTL[1:], 2), 0.15
            CLS, TTL = CLS + [near(rng, CLS[0])], TTL + [near(rng, TTL[0]), near(rng, TTL[0])]
        mode = ['gnome', 'wlroots', 'cosmic', 'x', 'gnome', 'wlroots', 'cosmic', 'kde'][i % 8]

        if mode == 'x':
            TTL = TTL + ['Größe', 'Größe é'] * (1 + len(TTL) // 4)

        def conf():
            t = ''
            for _ in range(rng.randrange(1, 7)):
                f = rng.choice(FILT) if rng.random() < PF else rng.choice(['*', norm_class(rng.choice(CLS))])
                if rng.random() < (0.8 if mode == 'x' else 0.45):
                    f += '|' + (rng.choice(TFILT) if rng.random() < PF else rng.choice(['legacy*', '*größe*', '*größe*']) if mode == 'x' and rng.random() < 0.4 else norm_title(rng.choice(TTL))[:180])
                t += '[%s]\n' % f + ''.join(rng.choice(['', '  ', '\t']) + b + '\n' for b in rng.sample([x for x in BINDS if x[0] != '#'], rng.randrange(0, 4)))
                if rng.random() < 0.3:
                    t += rng.choice(['\n', '# a comment\n', '   \n'])
            return t + '[sentinel-*]\nsentinel\n'
        steps, n = [], 0
        wins = []       # ids of open toplevels
        nid = 100
        tree, xid = XTree(), [100]
        for _ in range(rng.randrange(1, 6)):
            burst = []
            if mode == 'x':
                burst = [('x', m) for m in xcommands(rng, tree, xid, rng.choice([1, 2, 5, 12]), CLS, TTL)]
            for _ in range(rng.choice([1, 2, 5, 12]) if mode != 'x' else 0):
                cls, ttl = rng.choice(CLS), rng.choice(TTL)
                if rng.random() < 0.1:
                    ttl += '\tafter a tab'
                if wins and rng.random() < 0.4:
                    # a window like another one
                    cls, ttl = rng.choice(wins)[1:]
                x = rng.random()
                if mode == 'kde':
                    burst.append(('kde', dict(caption=rng.choice([ttl, ttl, ttl, 'two\nlines']), resourceClass=cls, resourceName=rng.choice([cls, 'other', ''])) if x < 0.9 else None))
                elif mode == 'gnome':
                    burst.append(('focus', 0, cls, ttl))
                    wins.append((0, cls, ttl))
                elif x < 0.45 or not wins:
                    burst.append(('open', nid, cls, ttl))
                    wins.append((nid, cls, ttl))
                    nid += 1
                    if rng.random() < 0.7:
                        burst.append(('focus', nid - 1, cls, ttl))
                elif x < 0.7:
                    w = rng.choice(wins)
                    burst.append(('focus',) + w)
                elif x < 0.85:
                    k = rng.randrange(len(wins))
                    wins[k] = (wins[k][0], wins[k][1], ttl)
                    burst.append(('title', wins[k][0], wins[k][1], ttl))
                else:
                    k = rng.randrange(len(wins))
                    burst.append(('close', wins[k][0], '', ''))
                    del wins[k]
            y = rng.random()
            steps.append(dict(burst=burst, split=rng.randrange(1 << 30) if rng.random() < 0.5 else None, conf=conf() if y < 0.25 else None, usr1=y > 0.85 and mode in ('gnome', 'x'), reopen=rng.random() < 0.3))
        return dict(mode=mode, conf=conf(), steps=steps, order=rng.randrange(2), kde=rng.choice('56'), stale=rng.randrange(2), extra=rng.sample([[0], [1], [3], [0, 3]], 1)[0])

    def shrink(self, case):
        S = case['steps']
        for k in range(len(S)):
            if len(S) > 1:
                yield dict(case, steps=S[:k] + S[k + 1:])
        for k, s in enumerate(S):
            for f, v in (('conf', None), ('usr1', False), ('reopen', False), ('split', None)):
                if s[f]:
                    yield dict(case, steps=S[:k] + [dict(s, **{f: v})] + S[k + 1:])
            if case['mode'] in ('gnome', 'kde', 'x'):
                for a, b in fw.chunks(s['burst'], 2) if len(s['burst']) > 1 else ():
                    yield dict(case, steps=S[:k] + [dict(s, burst=s['burst'][:a] + s['burst'][b:])] + S[k + 1:])

    def stub(self, ctx):
        d = os.path.join(ctx.scratch, 'stub')
        if not os.path.exists(d + '/keyd'):
            os.makedirs(d, exist_ok=True)
            open(d + '/k.c', 'w').write(STUB)
            subprocess.run(['gcc', '-O1', '-w', '-o', d + '/keyd.new', d + '/k.c'], check=True)
            os.rename(d + '/keyd.new', d + '/keyd')
        return d

    def run_case(self, ctx, case):
        d = os.path.join(ctx.scratch, 'app')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/home/.config/keyd')
        os.makedirs(d + '/rt')
        os.makedirs(d + '/cwd')
        path = d + '/home/.config/keyd/app.conf'
        stamp = [1000000000]

        def put(text):
            open(path, 'w', encoding='utf-8').write(text)
            stamp[0] += 10
            os.utime(path, (stamp[0], stamp[0]))
        put(case['conf'])
        env = dict(HOME=d + '/home', PATH=self.stub(ctx) + ':/usr/bin:/bin', XDG_RUNTIME_DIR=d + '/rt', KEYD_STUB_LOG=d + '/log', PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1', LC_ALL='C.UTF-8')
        log = d + '/log'
        open(log, 'w').close()
        wl = wfd = None
        mode = case['mode']
        if mode == 'gnome':
            env['XDG_CURRENT_DESKTOP'] = 'ubuntu:GNOME'
            os.mkfifo(d + '/rt/keyd.fifo')
        elif mode in ('x', 'kde'):
            env.update(dict(DISPLAY=':77') if mode == 'x' else dict(DISPLAY=':77', KDE_SESSION_VERSION=case['kde'], FAKE_STALE=str(case['stale'])))
            env.update(PYTHONPATH=STUBS, FAKE_CMDS=d + '/rt/keyd.fifo', FAKE_TMP=d)
            os.mkdir(d + '/tmp')
            os.mkfifo(d + '/rt/keyd.fifo')
        else:
            env['WAYLAND_DISPLAY'] = 'wayland-7'
            wl = Wl(d + '/rt/wayland-7', dict(wlroots='zwlr_foreign_toplevel_manager_v1', cosmic='zcosmic_toplevel_info_v1')[mode], ['wl_compositor', 'wl_seat'][:1 + case['order']])
            wl.start()
        err = open(d + '/err', 'wb')
        p = subprocess.Popen([sys.executable, build.REPO + '/scripts/keyd-application-mapper'], cwd=d + '/cwd', env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
        try:
            return self.drive(case, d, p, wl, put, log)
        finally:
            p.kill()
            p.wait()
            err.close()
            if wl:
                wl.stop()
            shutil.rmtree(d, ignore_errors=True)

    def drive(self, case, d, p, wl, put, log):
        mode, app = case['mode'], parse_app(case['conf'])
        errtext = lambda: open(d + '/err', 'rb').read().decode('utf-8', 'replace')[-700:]

        def records():
            b = open(log, 'rb').read().decode('utf-8', 'surrogateescape')
            return [x.split('\0')[:-1] for x in b.split('\1\0')[:-1]]
        fifo = [None]

        def wopen():
            end = time.time() + 30
            while time.time() < end and p.poll() is None:
                try:
                    fifo[0] = os.open(d + '/rt/keyd.fifo', os.O_WRONLY | os.O_NONBLOCK)
                    os.set_blocking(fifo[0], True)
                    return True
                except OSError:
                    time.sleep(0.01)
            return False
        piped, tree = mode in ('gnome', 'x', 'kde'), XTree()
        if piped:
            if not wopen():
                return Out(viol='the mapper does not start: %s' % errtext()) if p.poll() is not None else Out(inconclusive='slow start')
        elif not wl.ready.wait(30):
            return Out(viol='the mapper does not start: %s' % errtext()) if p.poll() is not None else Out(inconclusive='slow start')
        elif wl.err:
            return Out(viol=wl.err)
        active, names = None, {}
        done, n = 0, 0
        sig = set()
        for k, s in enumerate(case['steps']):
            if s['conf']:
                put(s['conf'])
                app = parse_app(s['conf'])
            exp, data = [], b''
            last = ('focus', 90 - k, 'Sentinel %d' % k, '')
            if mode == 'kde':
                last = ('kde', dict(caption='', resourceClass='Sentinel %d' % k, resourceName='x'))
            burst = [tuple(x) for x in s['burst']] + [last]
            for what, *x in burst:
                if what == 'kde':
                    data += json.dumps(dict(client=x[0])).encode() + b'\n'
                    if x[0]:
                        exp.append(wanted(app, x[0]['resourceClass'], x[0]['caption']))
                    continue
                if mode == 'x':
                    m = x[0]
                    if what == 'focus':
                        # nothing is above the last one
                        m = dict(wins=dict({str(i): {'_NET_WM_STATE': []} for i in tree.floating()}, **{str(90000 - k): {'parent': 2, 'class': ['s', x[1]], '_NET_WM_NAME': ''}}), focus=90000 - k)
                    data += json.dumps(m).encode() + b'\n'
                    r = tree.apply(m)
                    if r:
                        exp.append(wanted(app, *r))
                    continue
                w, cls, ttl = x
                if mode == 'gnome':
                    data += ('%s\t%s\n' % (cls, ttl)).encode()
                    exp.append(wanted(app, cls, ttl))
                    continue
                m = lambda op, payload=b'': wl.msg(w, op, payload)
                T, I, ST, DONE, CL = (0, 1, 4, 5, 6) if mode == 'wlroots' else (2, 3, 8, 1, 0)
                arr = lambda st: struct.pack('<I', 4 * len(st)) + b''.join(struct.pack('<I', x) for x in st)
                if what == 'open' or w < 100:
                    data += wl.msg(4, 0, struct.pack('<I', w))
                    data += m(T, wl.string(ttl)) + m(I, wl.string(cls)) + m(ST, arr([])) + m(DONE)
                    names[w] = (cls, ttl)
                if what == 'title':
                    names[w] = (cls, ttl)
                    data += m(T, wl.string(ttl)) + m(DONE)
                    if w == active and mode == 'wlroots':
                        exp.append(wanted(app, cls, ttl))
                if what == 'focus':
                    old = b''
                    if active is not None and active != w:
                        old = wl.msg(active, ST, arr([])) + wl.msg(active, DONE, b'')
                    new = m(ST, arr([x for x in case['extra'] if x < 2] + [2] + [x for x in case['extra'] if x > 2])) + m(DONE)
                    data += old + new if case['order'] else new + old
                    active = w
                    exp.append(wanted(app, *names[w]))
                if what == 'close':
                    data += m(CL)
                    if active == w:
                        active = None
            n += len(exp)
            send = (lambda b: os.write(fifo[0], b)) if piped else wl.conn.sendall
            try:
                if s['split'] is None:
                    if piped:
                        for l in range(0, len(data), 4096):
                            send(data[l:l + 4096])
                    else:
                        send(data)
                else:
                    r = random.Random(s['split'])
                    at = 0
                    while at < len(data):
                        x = r.choice([1, 3, 8, 20, 300, 5000])
                        send(data[at:at + x])
                        at += x
                        if r.random() < 0.2:
                            time.sleep(0.002)
            except OSError as e:
                return Out(viol='the mapper is gone after %d focus changes: %s' % (n, errtext()))
            # the last change of each burst has bindings of its own
            end = time.time() + 20
            last = None
            while time.time() < end:
                rec = records()[done:]
                if rec and 'sentinel' in rec[-1] and (len(rec) >= len(exp) or last == rec):
                    break
                if p.poll() is not None:
                    break
                last = rec if rec and 'sentinel' in rec[-1] else None
                time.sleep(0.005 if not last else 0.3)
            rec = records()[done:]
            squeeze = lambda L: [x for j, x in enumerate(L) if not j or L[j - 1] != x]
            a, b = squeeze(exp), squeeze(rec)
            if a != b:
                j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return Out(viol='%s: after %s, invocation %d should be %s but is %s%s' % (mode, [x[2:] or x[1:] for x in burst][-8:], j, a[j] if j < len(a) else 'absent', b[j] if j < len(b) else 'absent', '; the mapper has ended: ' + errtext() if p.poll() is not None else ''))
            if len(rec) > 3 * len(exp) + 3:
                return Out(viol='%s: %d invocations for %d focus changes' % (mode, len(rec), len(exp)))
            sig |= {(mode, tuple(x)) for x in rec}
            done += len(rec)
            if s['usr1']:
                os.kill(p.pid, signal.SIGUSR1)
                end = time.time() + 20
                while time.time() < end and len(records()) == done:
                    time.sleep(0.005)
                rec = records()[done:]
                if squeeze(rec) != [exp[-1]]:
                    return Out(viol='SIGUSR1 should apply %s again but %s' % (exp[-1], rec))
                done += len(rec)
            if s['reopen'] and mode == 'gnome':
                # the writer goes away: nothing has the focus
                os.close(fifo[0])
                time.sleep(0.03)
                if len(records()) != done:
                    return Out(viol='the mapper runs %s although no focus change was reported (the pipe was closed)' % records()[done:done + 2])
                if not wopen():
                    return Out(viol='the mapper stops reading the pipe once it was closed: %s' % errtext())
        if fifo[0] is not None:
            time.sleep(0.01)
        if os.path.exists(d + '/rt/keyd.fifo.err'):
            return Out(viol='%s: %s' % (mode, open(d + '/rt/keyd.fifo.err').read()[:300]))
        if p.poll() is not None:
            return Out(viol='the mapper has ended: ' + errtext())
        if len(records()) != done:
            return Out(viol='%s: extra invocations %s' % (mode, records()[done:]))
        odd = [f for f in os.listdir(d + '/cwd') + [x for x in os.listdir(d + '/home/.config/keyd') if x not in ('app.conf', 'app.lock', 'app.log')] + os.listdir(d + '/home')[1:]]
        if odd:
            return Out(viol='files appeared: %s' % odd)
        if fifo[0] is not None:
            os.close(fifo[0])
        return Out(sig=sig, n=n, counts={mode + ' focus changes': n, 'invocations': done})


# -- the GNOME extensions, under a stand-in for the shell
SHELL = r"""
import fs from 'node:fs';
import vm from 'node:vm';
import module from 'node:module';
const [dir, modern] = [process.argv[2], process.argv[3] === '1'];
const ops = JSON.parse(fs.readFileSync(0, 'utf8'));
const state = {reader: false, waiting: [], win: null, spawned: [], got: [], fifos: []};
const enc = new TextEncoder();
class Signals {
    constructor() { this.h = new Map(); this.n = 1; this.by = []; }
    connect(name, cb) { this.h.set(this.n, [name, cb]); return this.n++; }
    connect_after(name, cb) { return this.connect(name, cb); }
    disconnect(id) { if (!this.h.delete(id)) throw new Error('no handler ' + id); }
    connectObject(...a) {
        const owner = a.length % 2 ? a[a.length - 1] : this;
        for (let i = 0; i + 1 < a.length; i += 2)
            this.by.push([owner, this.connect(a[i], a[i + 1])]);
    }
    disconnectObject(o) {
        this.by.filter(x => x[0] === o).forEach(x => this.h.delete(x[1]));
        this.by = this.by.filter(x => x[0] !== o);
    }
    emit(name, ...a) { for (const [k, [n, cb]] of [...this.h]) if (n === name) cb(this, ...a); }
}
const bytes = m => Buffer.from(typeof m === 'string' ? enc.encode(m) : m && m.bytes ? m.bytes : m);
class Pipe {
    constructor() { this.open = true; }
    put(m) {
        if (!this.open || !state.reader) { this.open = false; throw new Error('Gio.IOErrorEnum: Broken pipe'); }
        const b = bytes(m);
        state.got.push(b);
        return b.length;
    }
    write(m) { return this.put(m); }
    write_all(m) { return [true, this.put(m)]; }
    write_bytes(m) { return this.put(m); }
    flush() { return true; }
    close() { this.open = false; return true; }
    is_closed() { return !this.open; }
}
class File {
    constructor(path) { this.path = path; }
    get_path() { return this.path; }
    append_to_async(flags, prio, canc, cb) {
        const f = () => { const p = new Pipe(); cb(this, {p}); };
        state.reader ? setImmediate(f) : state.waiting.push(f);
    }
    append_to_finish(res) { return res.p; }
    query_exists() { return true; }
}
const RT = '/run/user/4711';
const GLib = {
    PRIORITY_DEFAULT: 0, Bytes: class { constructor(b) { this.bytes = bytes(b); } },
    getenv: n => n === 'XDG_RUNTIME_DIR' ? RT : n === 'HOME' ? '/home/u' : null,
    get_user_runtime_dir: () => RT,
    spawn_command_line_sync: c => { state.spawned.push(c); return [true, enc.encode(c === 'id -u' ? '4711\n' : ''), enc.encode(''), 0]; },
    spawn_command_line_async: c => { state.spawned.push(c); return true; },
};
const Gio = {File: {new_for_path: p => new File(p)}, FileCreateFlags: {NONE: 0}};
const tracker = new Signals();
const display = new Signals();
Object.defineProperty(display, 'focus_window', {get: () => state.win});
display.get_focus_window = () => state.win;
const Shell = {WindowTracker: {get_default: () => tracker}};
const Main = {layoutManager: new Signals()};
Object.defineProperty(tracker, 'focus_app', {get: () => state.win ? {} : null});
class Extension { constructor(m) { this.metadata = m; } }
Object.assign(globalThis, {display, stage: {get_title: () => state.modal}, log: () => 0, logError: () => 0});
console.log = console.error = () => 0;
let ext;
if (modern) {
    globalThis.__stub = {'gi://GLib': {default: GLib}, 'gi://Gio': {default: Gio}, 'gi://Shell': {default: Shell},
        'resource:///org/gnome/shell/ui/main.js': Main, 'resource:///org/gnome/shell/extensions/extension.js': {Extension}};
    const hooks = `export async function resolve(s, c, n) { return /^(gi|resource):/.test(s) ? {url: 'stub:' + s, shortCircuit: true} : n(s, c); }
        export async function load(u, c, n) {
            if (u.endsWith('/extension.js') && u.startsWith('file:')) return n(u, {...c, format: 'module'});
            if (!u.startsWith('stub:')) return n(u, c);
            const k = u.slice(5), names = {'resource:///org/gnome/shell/ui/main.js': ['layoutManager'], 'resource:///org/gnome/shell/extensions/extension.js': ['Extension']}[k] || ['default'];
            return {format: 'module', shortCircuit: true, source: names.map(x => x === 'default' ? 'export default globalThis.__stub[' + JSON.stringify(k) + '].default;' : 'export const ' + x + ' = globalThis.__stub[' + JSON.stringify(k) + '].' + x + ';').join('')};
        }`;
    module.register('data:text/javascript,' + encodeURIComponent(hooks));
    const m = await import('file://' + dir + '/extension.js');
    ext = new m.default({uuid: 'keyd'});
} else {
    globalThis.imports = {gi: {GLib, Gio, Shell}, ui: {main: Main}, misc: {extensionUtils: {}}};
    vm.runInThisContext(fs.readFileSync(dir + '/extension.js', 'utf8'));
    ext = globalThis.init({uuid: 'keyd'});
}
const out = [];
const tick = () => new Promise(r => setImmediate(r));
for (const [op, a, b] of ops) {
    state.got = []; state.spawned = [];
    let err = null;
    try {
        if (op === 'enable') ext.enable();
        if (op === 'disable') ext.disable();
        if (op === 'reader') { state.reader = a; if (a) { const w = state.waiting; state.waiting = []; w.forEach(f => setImmediate(f)); } }
        if (op === 'focus') { state.win = a === null && b === null ? null : {get_wm_class: () => a, get_title: () => b, wm_class: a, title: b}; tracker.emit('notify::focus-app'); display.emit('notify::focus-window'); }
        if (op === 'modal') { state.modal = a; Main.layoutManager.emit('system-modal-opened'); }
    } catch (e) { err = String(e && e.stack || e); }
    for (let i = 0; i < 4; i++) await tick();
    out.push({got: Buffer.concat(state.got).toString('base64'), spawned: state.spawned, err});
}
process.stdout.write(JSON.stringify(out));
"""


@check
class A04(fw.Check):
    id = 'A04'
    variants = ()
    quick, thorough = 500, 8000
    technique = ('runtime monitoring: both GNOME extensions under node with a recording stand-in for the shell (signals, windows, the pipe and its reader); every line written against the focus history, read the way the mapper reads it')
    level_note = 'random histories of windows, dialogs, mapper restarts and extension restarts; the shell is a stand-in, not GNOME'
    rule = ('5-100 steps: focus changes (any class and title: tabs, newlines, unicode, empty), no window, system dialogs, mapper starting and ending, the extension disabled and enabled again; evaluations = lines; distinct = lines; '
            'oracle: while enabled and read, each change is one line, class before title, and nothing else is written; the mapper is started when enabled; the extension never throws')
    min_distinct = 50

    def case(self, rng, i, tier):
        TX = ['a\nb', 'x\ty', 'evil\nroot\t', '\n', 'a\r\nb', '  padded  ', 'tab\tand\nline', '`${x}`', '\\n', '日本\n語', '"', 'null', '${HOME}', 'a' * 500]
        ops = [('enable', None, None)]
        if rng.random() < 0.8:
            ops.append(('reader', True, None))
        rd, en, win = len(ops) == 2, True, False
        for _ in range(rng.randrange(5, 100)):
            x = rng.random()
            if x < (0.06 if rd else 0.4):
                rd = not rd
                ops.append(('reader', rd, None))
            elif x < (0.12 if en else 0.7):
                en = not en
                ops.append(('enable' if en else 'disable', None, None))
            elif x < 0.2 or x > 0.9:
                ops.append(('modal', rng.choice(TX + TTL), None))
            elif x < 0.32:
                ops.append(('focus', None, None))
            else:
                ops.append(('focus', rng.choice(CLS) if rng.random() < 0.8 else rng.choice(TX), rng.choice(TTL) if rng.random() < 0.6 else rng.choice(TX)))
        return dict(ext=['gnome-extension', 'gnome-extension-45'][i % 2], ops=ops)

    def shrink(self, case):
        o = case['ops']
        for a, b in fw.chunks(o, 1):
            if a > 0:
                yield dict(case, ops=o[:a] + o[b:])

    def run_case(self, ctx, case):
        f = os.path.join(ctx.scratch, 'shell.mjs')
        if not os.path.exists(f):
            open(f + '.%d' % os.getpid(), 'w').write(SHELL)
            os.rename(f + '.%d' % os.getpid(), f)
        p = subprocess.run(['node', '--no-warnings', f, build.REPO + '/data/' + case['ext'], '1' if case['ext'].endswith('45') else '0'], input=json.dumps(case['ops']).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=ctx.scratch)
        try:
            res = json.loads(p.stdout)
        except ValueError:
            res = None
        if res is None:
            return Out(viol='%s: the extension fails: %s' % (case['ext'], p.stderr.decode('utf-8', 'replace')[-500:]))
        en = rd = False
        # after the reader has gone, the first line finds out that it has
        pipe = stale = False
        n, sig = 0, set()
        plain = lambda s: re.sub('[\t\r\n]', ' ', s)
        for (op, a, b), r in zip([tuple(x) for x in case['ops']], res):
            what = '%s: %s' % (case['ext'], (op, a, b))
            got = base64.b64decode(r['got']).decode('utf-8', 'replace')
            if r['err']:
                return Out(viol='%s fails: %s' % (what, r['err'][:300]))
            want = None
            if op == 'enable':
                en = True
                if not any('keyd-application-mapper' in x and 'kill' not in x for x in r['spawned']):
                    return Out(viol='%s: the mapper is not started (%s)' % (what, r['spawned']))
            if op == 'disable':
                en = False
            if op == 'reader':
                rd = a
                pipe = pipe or rd
            if op == 'focus' and en and rd:
                want = ('root', '') if a is None and b is None else (a, b)
            if op == 'modal' and en and rd:
                want = ('system-modal', a)
            if want is None:
                if got and op in ('focus', 'modal') and not en:
                    return Out(viol='%s: the extension is disabled but writes %r' % (what, got))
                if got and op in ('enable', 'disable'):
                    return Out(viol='%s: writes %r' % (what, got))
                continue
            lines = got.split('\n')
            if len(lines) != 2 or lines[1]:
                return Out(viol='%s: %d lines (%r) rather than one' % (what, len(lines) - 1, got))
            f2 = lines[0].split('\t', 1)
            if len(f2) != 2 or plain(f2[0]) != plain(want[0]) or plain(f2[1]) != plain(want[1]):
                return Out(viol='%s: the line is %r' % (what, lines[0]))
            n += 1
            sig.add((case['ext'], lines[0]))
        return Out(sig=sig, n=n, counts={'lines': n, case['ext']: 1})
