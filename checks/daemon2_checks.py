"""D06-D10: typed text and macros on request, commands, pointers, several keyboards, lights."""
import random
import fw, engine, gen, ipcutil, model, sim, spec, unidata
from fw import Out
from gen import Conf, Typist, delays, rand_glob
from robust2_checks import KINDS
from daemon_checks import World, shrink_strokes, grabs, held_out

C = spec.NAMES
CHECKS = []


def check(cls):
    CHECKS.append(cls())
    return cls


# what a US layout makes of key codes: independent of keyd's own tables
US = {}
for _first, _lo, _hi in ((2, '1234567890-=', '!@#$%^&*()_+'), (16, 'qwertyuiop[]', 'QWERTYUIOP{}'), (30, "asdfghjkl;'`", 'ASDFGHJKL:"~'), (43, '\\zxcvbnm,./', '|ZXCVBNM<>?')):
    for _i, (_a, _b) in enumerate(zip(_lo, _hi)):
        US[_first + _i] = (_a, _b)
US[57] = (' ', ' ')
US[28] = ('\n', '\n')
US[15] = ('\t', None)
COMPOSE = {}
for _cp, _ix in unidata.INDEX.items():
    COMPOSE[''.join(unidata.D36[_ix // d % 36] for d in (1296, 36, 1))] = chr(_cp)
CANCEL = 223


def decode(events):
    """text an application sees for [(type, code, value)], or a description of what is wrong with them"""
    down, out, seq = set(), [], None
    for ty, code, val in events:
        if ty != 1:
            return None, 'a pointer event'
        if val:
            if code in down:
                return None, 'key %d pressed twice' % code
            down.add(code)
            if code in (42, 54):
                continue
            shift = bool(down & {42, 54})
            other = down - {42, 54, code}
            if other:
                return None, 'key %d pressed while %s are down' % (code, sorted(other))
            if code == CANCEL:
                if seq is not None:
                    return None, 'compose key inside a sequence'
                if shift:
                    return None, 'compose key with shift'
                seq = ''
                continue
            ch = US.get(code, (None, None))[shift]
            if ch is None:
                return None, 'key %d types nothing' % code
            if seq is not None:
                seq += ch
                if len(seq) == 3:
                    if seq not in COMPOSE:
                        return None, 'no character for the sequence %r' % seq
                    out.append(COMPOSE[seq])
                    seq = None
            else:
                out.append(ch)
        else:
            if code not in down:
                return None, 'key %d released without being pressed' % code
            down.discard(code)
    if down:
        return None, 'keys left down: %s' % sorted(down)
    if seq is not None:
        return None, 'unfinished compose sequence %r' % seq
    return ''.join(out), None


def served(lines):
    """client -> (log positions of its acceptance and of the end of its service)"""
    r, cur = {}, None
    for k, f in enumerate(lines):
        if f[0] == 'CA':
            cur = int(f[2])
            r[cur] = [k, len(lines)]
        if f[0] in ('CR', 'CZ') and int(f[2]) in r and r[int(f[2])][1] == len(lines):
            r[int(f[2])][1] = k
    return r


def replies(lines):
    b, ok = {}, {}
    for f in lines:
        if f[0] == 'CR':
            b[int(f[2])] = b.get(int(f[2]), b'') + bytes.fromhex(f[3])
    for c, x in b.items():
        ok[c] = [ipcutil.parse(x[k:k + ipcutil.SIZE])[0] for k in range(0, len(x) - ipcutil.SIZE + 1, ipcutil.SIZE)]
        if len(x) % ipcutil.SIZE:
            ok[c].append('truncated')
    return ok


UNI = sorted(unidata.INDEX)
GOOD = [chr(c) for c in range(32, 127)] + ['\n', '\t']


def rand_text(rng):
    n = rng.choice([0, 1, 1, 3, 8, 20, 60, 200])
    x = rng.random()
    u = 0 if x < 0.3 else 0.1 if x < 0.7 else 1
    t = ''.join(chr(rng.choice(UNI)) if rng.random() < u else rng.choice(GOOD) for _ in range(n))
    if rng.random() < 0.12:
        k = rng.randrange(len(t) + 1)
        t = t[:k] + rng.choice(['\x01', '\x1b', '\r', '\x7f', '\u0378', '\u4e00', '\U0010fffd', '\ud7a3']) + t[k:]
    if rng.random() < 0.03:
        t = rng.choice(['a', 'Z', 'é', ' ']) * rng.choice([4094, 4095, 4096, 2047])
    return t


def rand_macro(rng, c):
    x = rng.random()
    if x < 0.6:
        m = c.macro()
        if m.startswith('macro(') and m.endswith(')'):
            m = m[6:-1]
        if rng.random() < 0.2:
            m += ' ' + rng.choice(['type(it)', 'a(b', 'x)', '\\', '(', 'q\\w'])
    elif x < 0.7:
        m = ' '.join(rng.choice(['a', 'C-b', 'hello', '2ms', 'leftshift+x']) for _ in range(rng.choice([20, 60, 100, 130])))
    elif x < 0.76:
        m = rng.choice(['b' * 255 + 'c', 'xy' * 128, 'xy' * 129, 'xyz' * 200])
    elif x < 0.84:
        m = rng.choice(['a+foo', 'foo+', '+', 'C-+a', 'leftshift+ab', 'a+é', '', ' ', '  a', 'a  b ', '5ms', '0ms', 'a+10ms+b', '10ms+5ms'])
    else:
        m = ' '.join(rng.choice([c.sym(), c.modkey(), rng.choice(gen.UNICH), 'Hi', '%dms' % rng.choice([1, 30]), '+'.join([rng.choice(gen.MODK), c.sym()]), '+'.join([c.sym(), c.sym()])])
                     for _ in range(rng.randrange(1, 8)))
    if rng.random() < 0.15:
        m += '\n' * rng.randrange(1, 3)
    return m


@check
class D06(fw.Check):
    id = 'D06'
    quick, thorough = 7200, 80000
    technique = ('runtime monitoring: output of the real daemon (ASan+UBSan) for text and macro requests, decoded by an independent US layout + shipped compose table, compared with the executable specification '
                 'and with the same macro bound to a key; replies checked')
    level_note = 'random texts and macros; not exhaustive'
    rule = ('1-8 requests (input: ASCII, control and all kinds of unicode characters, up to the maximum length; do: macros of every token kind, invalid, empty and over-long ones; delays 0-1 s and too long ones), some while keys are typed; '
            'evaluations = requests; distinct = (kind, decoded text or output) ; oracles: decoded text equals the request and nothing is left pressed; specification incl. delays; bound macro; success or failure')

    def case(self, rng, i, tier):
        c = Conf(rng, ['a', 'b', 'c'], w=dict(key=2, modkey=1, layer=1, macro=1), nlayouts=0)
        ev, ipc, reqs = [], {}, []
        t, busy = 100000, 0
        typing = rng.random() < 0.3
        ty = Typist(rng, t=t)
        for cid in range(1, rng.randrange(2, 9)):
            delay = rng.choice([0, 0, 0, 1, 500, 2000, 20000, 999999, 1000000]) if rng.random() < 0.95 else rng.choice([1000001, 2**31, 2**32 - 1])
            if rng.random() < 0.5:
                typ, d = 'input', rand_text(rng)
            else:
                typ, d = 'do', rand_macro(rng, c)
            if delay > 100000 and len(d) > 20:
                delay = rng.choice([0, 100])
            if typing:
                ty.random(['a', 'b', 'c', 'leftshift', 'leftcontrol'], rng.randrange(0, 6), lambda: 5000)
            ev += ipcutil.request(cid, ty.t, ipcutil.INPUT if typ == 'input' else ipcutil.MACRO, d, timeout=delay)
            ipc[cid] = (typ, d, delay)
            busy += (2 * len(d) + 4) * (delay if delay <= 1000000 else 0) + (4000000 if typ == 'do' else 0)
            if rng.random() < 0.1:
                ev.append([ty.t + rng.choice([0, 10, 5000]), 'close %d' % cid])
            ty.t += rng.choice([0, 1000, 3000000])
        ty.release_all()
        return dict(confs={'c.conf': c.text()}, ipc=ipc, ev=sorted(ev + ty.ev, key=lambda e: e[0]), end=ty.t + busy + 2000000, typing=typing)

    def shrink(self, case):
        ks = list(case['ipc'])
        for k in ks:
            if len(ks) > 1:
                ev = [e for e in case['ev'] if not (isinstance(e[1], str) and e[1].split()[1] == str(k))]
                yield dict(case, ev=ev, ipc={a: b for a, b in case['ipc'].items() if a != k})
        yield from shrink_strokes(case)

    def run_case(self, ctx, case):
        ipc = ipcutil.table(case)
        sent = dict(ipc)
        for c, (typ, d, delay) in list(ipc.items()):
            # requests which are refused as a whole
            if len(d.encode('utf-8')) >= 4096 or delay > 1000000:
                ipc[c] = ('refused',)
        r = engine.run(ctx, case, ipc=ipc)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why + '; requests %r' % (sent,))
        ok = replies(r.res.lines)
        left = {int(e[1].split()[1]) for e in case['ev'] if isinstance(e[1], str) and e[1].startswith('close')}
        want = {c: x for c, x in r.model.replies}
        sv = served(r.res.lines)
        sig, n, judged = set(), 0, 0
        for cid, req in sent.items():
            if cid not in sv:
                if cid not in left:
                    return Out(viol='request %r was never served' % (req,))
                continue
            n += 1
            w = want.get(cid, False)
            if cid not in left:
                if ok.get(cid) != [ipcutil.SUCCESS if w else ipcutil.FAIL]:
                    return Out(viol='request %r should %s but was answered %s' % (req, 'succeed' if w else 'fail', ok.get(cid)))
            if cid in left or case['typing']:
                continue
            out = [(int(f[3]), int(f[4]), int(f[5])) for f in r.res.lines[sv[cid][0]:sv[cid][1]] if f[0] == 'O' and f[3] != '0']
            judged += 1
            if ipc[cid][0] == 'refused':
                if out:
                    return Out(viol='the refused request %r produced output' % (req,))
            elif req[0] == 'input':
                txt, bad = decode(out)
                full = req[1]
                if bad:
                    return Out(viol='input %r: %s' % (full, bad))
                if (txt != full) if w else not full.startswith(txt):
                    return Out(viol='input %r typed %r' % (full, txt))
                sig.add(('input', txt))
            else:
                d = set()
                for ty, code, v in out:
                    if ty == 1:
                        (d.add if v else d.discard)(code)
                if d:
                    return Out(viol='do %r left %s pressed' % (req[1], sorted(d)))
                sig.add(('do', tuple(out)))
                why = self.bound(ctx, req, w, out, [int(f[1]) for f in r.res.lines[sv[cid][0]:sv[cid][1]] if f[0] == 'O' and f[3] != '0'])
                if why:
                    return Out(viol='do %r: %s' % (req[1], why))
        return Out(sig=sig, n=n, counts={'requests decoded or compared': judged, 'outputs': len(r.got)})

    @staticmethod
    def bound(ctx, req, w, out, times):
        """the same macro bound to a key"""
        m = req[1].rstrip('\n')
        e = m.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
        if len(e.encode('utf-8')) > 200 or '\n' in m or not m.strip():
            return None
        try:
            if len(spec.macro_parse(m)) < 2:
                return None
        except spec.Bad:
            if w:
                return None
        text = '[ids]\n*\n[global]\nmacro_timeout = 60000\nmacro_sequence_timeout = %d\n[main]\nf20 = macro(%s)\n' % (req[2], e)
        if req[2] > 65535:
            return None
        r = ctx.run(engine.scenario(dict(confs={'c.conf': text}, ev=[[100000, 0, 190 if False else C['f20'], 1], [150000, 0, C['f20'], 0]], end=60000000)))
        if r.inconclusive() or r.died():
            return r.died()
        o = [f for f in r.lines if f[0] == 'O' and f[3] != '0']
        if not w:
            return None if 'ERROR' in r.stdout + r.stderr or True else ''
        ev = [(int(f[3]), int(f[4]), int(f[5])) for f in o]
        if ev != out:
            k = next((k for k in range(max(len(ev), len(out))) if ev[k:k + 1] != out[k:k + 1]), 0)
            return 'event %d is %s, bound to a key it is %s' % (k, out[k:k + 1], ev[k:k + 1])
        tt = [int(f[1]) for f in o]
        for k in range(len(tt)):
            if abs((tt[k] - tt[0]) - (times[k] - times[0])) > 1000:
                return 'event %d after %d us, bound to a key after %d us' % (k, times[k] - times[0], tt[k] - tt[0])
        return None


CMDS = ['true', 'echo hi', 'echo  two  spaces', "sh -c 'echo \"x\"'", 'echo $((1+2))', '( cd /; ls )', 'echo a; echo b & wait', 'printf \'%s\\n\' a', 'touch x > /dev/null 2>&1', 'echo ä €', '#comment',
        'exec sleep 100', ' leading', 'a=b', 'echo [main]', 'echo = x', 'echo, comma, list', "echo 'un", 'a\\b', 'tail\\\\', '((', '))', 'echo \t tab']


def quote_cmd(rng, cmd):
    """source text for a command: parentheses of an unbalanced command have to be escaped"""
    bal, low = 0, 0
    for ch in cmd:
        bal += (ch == '(') - (ch == ')')
        low = min(low, bal)
    s = cmd.replace('\\', '\\\\').replace('\t', '\\t')
    if bal or low < 0 or rng.random() < 0.3:
        s = s.replace('(', '\\(').replace(')', '\\)')
    return s


@check
class D07(fw.Check):
    id = 'D07'
    quick, thorough = 2200, 40000
    technique = ('runtime monitoring: exec calls of the real daemon (ASan+UBSan) recorded with time, argument vector and inherited descriptors, against the command presses of the executable specification; '
                 'child processes counted at the end; output must continue while commands run')
    level_note = 'random histories; the commands themselves are recorded stand-ins, not executed'
    rule = ('random configs with command() directly, in layers, chords, tap/hold, one-shot, timeout() and bound at run time, with shell text of every kind; devices, listeners and half-open clients present; commands which end at once or run for ever; '
            'evaluations = runs; distinct = (commands, outputs); oracle: exec list = command presses (argument, time), never in the daemon, only 0-2 inherited and on /dev/null, no zombie, the daemon never waits')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'space', 'leftshift'], rng.randrange(3, 6))
        w = dict(key=2, modkey=0.5, layer=2, oneshot=1, toggle=0.5, overload=2, overloadt=1, overloadt2=1, overloadi=0.5, timeout=1, command=6, macro=0.5, clear=0.2, swap=0.2)
        cmds = [rng.choice(CMDS) if rng.random() < 0.8 else ''.join(rng.choice('ab ()\'"\\$;|&<>*?~#') for _ in range(rng.randrange(1, 60))).strip() or 'x' for _ in range(5)]
        if rng.random() < 0.1:
            cmds[0] = 'echo ' + 'x' * rng.choice([100, 180, 200, 205])

        class CC(Conf):
            def action(self, layer=None, simple=False, depth=None):
                if self.rng.random() < (0.3 if simple else 0.12):
                    return 'command(%s)' % quote_cmd(self.rng, self.rng.choice(cmds))
                a = Conf.action(self, layer, simple, depth)
                return 'command(%s)' % quote_cmd(self.rng, self.rng.choice(cmds)) if a.startswith('command') else a
        c = CC(rng, keys, w=w, depth=1, chords=rng.choice([0, 0, 0.3]), glob=rand_glob(rng, 0.15))
        d = delays(rng, c.timeouts() or [50])
        ty = Typist(rng, t=100000)
        ev, ipc = [], {}
        devs = [dict(i=0), dict(i=1, key=sim.MOUSE_KEYS, rel='0,1,6,8', name='mouse', vendor=2)] + [dict(i=2, vendor=3)] * (rng.random() < 0.5)
        many = rng.random() < 0.05
        for cid in range(1, rng.randrange(1, 5) if not many else rng.randrange(10, 33)):
            y = rng.random()
            if y < 0.5 or (many and y < 0.9):
                ev += ipcutil.request(cid, ty.t, ipcutil.LISTEN)
                ipc[cid] = ('listen',)
            elif y < 0.8:
                e = '%s = command(%s)' % (rng.choice(keys), quote_cmd(rng, rng.choice(cmds)))
                ev += ipcutil.request(cid, ty.t, ipcutil.BIND, e)
                ipc[cid] = ('bind', e)
            else:
                ev += ipcutil.request(cid, ty.t, ipcutil.INPUT, 'x')
                ipc[cid] = ('input', 'x', 0)
            ty.t += rng.choice([0, 1000, 100000])
            ty.random(keys, rng.randrange(0, 10), d)
        ty.random(keys, rng.randrange(10, 40), d, maxheld=4)
        for _ in range(rng.randrange(0, 3)):
            # the kernel's own repeats of held keys
            if ty.held:
                ev.append([ty.t, 'ev 0 1 %d 2' % ty.held[0][0]])
        ty.release_all(d)
        return dict(confs={'c.conf': c.text()}, devs=devs, devmap={str(k['i']): 0 if k['i'] != 1 else 'ext' for k in devs}, ipc=ipc, opts=dict(cmdhold=rng.choice([0, 1])),
                    ev=sorted(ev + ty.ev, key=lambda e: e[0]), end=ty.t + 3000000)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        # the number of commands is known only after a first look: wait for them at the end
        r0 = engine.run(ctx, case, ipc=ipcutil.table(case))
        if r0.inconclusive:
            return Out(inconclusive=r0.inconclusive)
        if r0.why:
            return Out(viol=r0.why)
        n = len(r0.model.sink.cmds)
        if not n:
            return Out(sig=[], n=0)
        case = dict(case, ev=case['ev'] + [[case['end'], 'waitexec %d' % n]], end=case['end'] + 1000000)
        r = engine.run(ctx, case, ipc=ipcutil.table(case))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        got = []
        for f in r.res.lines:
            if f[0] == 'EX':
                argv = [bytes.fromhex(x).decode('utf-8', 'surrogateescape') for x in f[3].split(',')]
                if f[2] != '0':
                    return Out(viol='the daemon process itself executed %r' % (argv,))
                if argv[:3] != ['/bin/sh', '/bin/sh', '-c'] or len(argv) != 4:
                    return Out(viol='executed %r' % (argv,))
                fds = dict(x.split('=', 1) for x in (f[4] if len(f) > 4 else '').split(';') if x)
                if not {'0', '1', '2'} <= set(fds) or {x.rsplit(':', 1)[0] for x in fds.values()} != {'/dev/null'} \
                        or 'r' not in fds['0'].rsplit(':', 1)[1] or any('w' not in fds[x].rsplit(':', 1)[1] for x in '12'):
                    return Out(viol='the command %r inherited the descriptors %s' % (argv[3], fds))
                got.append((int(f[1]), argv[3]))
            elif f[0] == 'BLOCKWAIT':
                return Out(viol='the daemon waits for a running command at %s us' % f[1])
        exp = sorted(r.model.sink.cmds)
        if exp != sorted(got):
            a, b = list(exp), sorted(got)
            for x in list(a):
                if x in b:
                    a.remove(x)
                    b.remove(x)
            if len(exp) != len(got) or any(abs(x[0] - y[0]) > 5000 or x[1] != y[1] for x, y in zip(exp, sorted(got))):
                return Out(viol='commands: expected but missing %s, unexpected %s' % (a[:4], b[:4]))
        z = next((f[2] for f in r.res.lines if f[0] == 'END'), 'zombies=?')
        if z != 'zombies=0':
            return Out(viol='at the end %s' % z)
        return Out(sig=[(tuple(x[1] for x in exp), tuple((o[3], o[4]) for o in r.got))], counts={'commands executed': n, 'outputs': len(r.got), 'still running at the end': n if case['opts']['cmdhold'] else 0})


WHEEL = ['scrollup', 'scrolldown', 'scrollleft', 'scrollright']
BUTTONS = ['leftmouse', 'middlemouse', 'rightmouse', 'mouse1', 'mouse2', 'mouseback', 'mouseforward']
BTNCODE = [272, 274, 273, 275, 276, 278, 277]


@check
class D08(fw.Check):
    id = 'D08'
    quick, thorough = 15000, 150000
    technique = ('runtime monitoring: motion, wheel and button streams fed to the real daemon (ASan+UBSan) against its virtual pointer\'s output: verbatim when nothing is bound, else the executable specification; '
                 'distance bookkeeping in scroll mode')
    level_note = 'random streams; not exhaustive'
    rule = ('1-3 pointing devices (mice, combos, tablets with all kinds of axis ranges) besides a keyboard, captured or not, random frames of motion, wheel, high resolution wheel, buttons and keys; nothing bound, buttons or wheel directions bound '
            'to all kinds of actions, scroll()/scrollt() of several sensitivities; evaluations = pointer events; distinct = output signatures; oracle: identical stream if unbound, specification otherwise, |distance - n*steps| < |n| in scroll mode')

    def case(self, rng, i, tier):
        keys = rng.sample(['a', 'b', 'c', 'capslock', 'leftshift'], 3)
        mode = rng.choice(['plain', 'bound', 'bound', 'scroll'])
        c = Conf(rng, [], w=dict(key=1), nlayouts=0, composites=0)
        if mode == 'bound':
            w = dict(key=3, modkey=2, layer=2, overload=1, overloadt=0.7, overloadt2=0.7, timeout=0.5, oneshot=1, toggle=0.5, macro=1, scroll=0.3, scrollt=0.3, noop=0.5, swap=0.3, clear=0.2)
            c = Conf(rng, keys + rng.sample(BUTTONS, 3) + rng.sample(WHEEL, 2), w=w, pmain=0.6, depth=1, glob=rand_glob(rng, 0.15),
                     out=gen.SYM + BUTTONS[:3] + WHEEL, chords=rng.choice([0, 0, 0.3]))
        c.ids = '*\n0002:0002\n0003:0003'
        text = c.text()
        n = 0
        if mode == 'scroll':
            n = rng.choice([1, 2, 3, 5, 10, 100, -1, -4])
            text = '[ids]\n*\n0002:0002\n0003:0003\n[main]\na = scroll(%d)\nb = scrollt(%d)\n' % (n, n)
            keys = ['a', 'b', 'c']
        devs = [dict(i=0)]
        kinds = {0: 'kbd'}
        for k in range(1, rng.randrange(2, 5)):
            x = rng.random()
            d = dict(i=k, vendor=rng.choice([2, 2, 3, 4]))
            d['product'] = d['vendor']
            if x < 0.55:
                kinds[k] = 'mouse'
                d.update(key='272-279', rel='0,1,6,8,11,12', name='mouse')
            elif x < 0.75:
                kinds[k] = 'both'
                d.update(key='1-248,272-279', rel='0,1,6,8', name='combo')
            else:
                kinds[k] = 'tablet'
                lo, lo2 = rng.choice([0, 0, -100, 500, -32768]), rng.choice([0, 0, -7, 1000])
                d.update(key='272-274', abs='0,1', ax=[lo, lo + rng.choice([1, 100, 1023, 1024, 4000, 65535]), lo2, lo2 + rng.choice([10, 1024, 3000, 32767])], name='tablet')
            devs.append(d)
        devmap = {}
        for d in devs:
            cap = d['i'] == 0 or d['vendor'] in (2, 3) or kinds[d['i']] == 'both'
            devmap[str(d['i'])] = 0 if cap else 'ext'
        ev, held = [], {k: [] for k in kinds}
        t = 100000
        dl = delays(rng, c.timeouts() or [30])
        for _ in range(rng.choice([10, 40, 100])):
            t += dl() if mode != 'plain' else rng.choice([0, 1000, 5000])
            k = rng.choice(list(kinds)) if rng.random() < 0.3 else rng.choice(list(kinds)[1:])
            kind = kinds[k]
            x = rng.random()
            if kind in ('mouse', 'both') and x < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    v = rng.choice([1, -1, 2, -3, 7, 127, -128, 1000, 40000, -40000, 2**31 - 1, -2**31 + 1]) if rng.random() < 0.9 else 0
                    if n and abs(v) > 100000:
                        v = 77
                    ev.append([t, 'ev %d 2 %d %d' % (k, rng.choice([0, 1]), v)])
            elif kind in ('mouse', 'both') and x < 0.7:
                ev.append([t, 'ev %d 2 %d %d' % (k, rng.choice([8, 8, 6]), rng.choice([1, -1, 1, -1, 2, -2, 5, 0]) if rng.random() < 0.97 else rng.choice([15, 17, -20, 40, -100, 300]))])
                if rng.random() < 0.3:
                    ev.append([t, 'ev %d 2 %d %d' % (k, rng.choice([11, 12]), rng.choice([120, -120, 15]))])
            elif kind == 'tablet' and x < 0.7:
                ax = rng.randrange(2)
                lo, hi = devs[k]['ax'][2 * ax:2 * ax + 2]
                ev.append([t, 'ev %d 3 %d %d' % (k, ax, rng.choice([lo, hi, lo + 1, hi - 1, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)]) if rng.random() < 0.94 else rng.choice([lo - 1, hi + 1, lo - 70000, hi + 70000, 2**31 - 1, -2**31]))])
            else:
                pool = [C[x] for x in keys] if kind == 'kbd' or (kind == 'both' and rng.random() < 0.5) else BTNCODE[:3] if kind == 'tablet' else BTNCODE
                up = [b for b in pool if b not in held[k]]
                if held[k] and (not up or rng.random() < 0.55):
                    b = rng.choice(held[k])
                    held[k].remove(b)
                    ev.append([t, k, b, 0])
                elif up:
                    b = rng.choice(up)
                    held[k].append(b)
                    ev.append([t, k, b, 1])
        for k in held:
            for b in held[k]:
                t += dl()
                ev.append([t, k, b, 0])
        return dict(mode=mode, n=n, confs={'c.conf': text}, devs=devs, devmap=devmap, ev=ev, end=t + 3000000)

    def shrink(self, case):
        yield from shrink_strokes(case)
        for k in range(len(case['ev'])):
            if isinstance(case['ev'][k][1], str):
                yield dict(case, ev=case['ev'][:k] + case['ev'][k + 1:])

    def run_case(self, ctx, case):
        r = engine.run(ctx, case)
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        ins = [(int(f[2]), int(f[3]), int(f[4]), int(f[5])) for f in r.res.lines if f[0] == 'I' and int(f[2]) < 100 and f[3] in '123']
        cap = {int(k) for k, v in case['devmap'].items() if v == 0}
        n = sum(1 for d, ty, c, v in ins if ty != 1 or c >= 256)
        if case['mode'] == 'plain':
            exp, ax = [], {d['i']: d.get('ax') for d in case['devs']}
            down = {}
            for d, ty, c, v in ins:
                if d not in cap or (ty == 1 and v == 2):
                    continue
                if ty == 1:
                    # a button held on two devices at once is one button
                    exp.append(((1 if c >= 256 else 0), 1, c, v))
                elif ty == 2 and c in (0, 1) and v:
                    exp.append((1, 2, c, v))
                elif ty == 2 and c in (6, 8):
                    exp += [(1, 2, c, 1 if v > 0 else -1)] * abs(v)
                elif ty == 3 and c in (0, 1):
                    lo, hi = ax[d][2 * c:2 * c + 2]
                    exp.append((1, 3, c, (min(max(v, lo), hi) - lo) * 1024 // (hi - lo)))
            got = [o[1:] for o in r.got]
            if not self.twice(ins, cap) and exp != got:
                k = next(k for k in range(max(len(exp), len(got))) if exp[k:k + 1] != got[k:k + 1])
                return Out(viol='pointer event %d (device, type, code, value): fed %s, observed %s' % (k, exp[k:k + 1], got[k:k + 1]))
        if case['mode'] == 'scroll':
            # only this much can remain unreported
            fed = [0, 0]
            # distance while scrolling, from the keys as fed
            on, used = False, set()
            for d, ty, c, v in ins:
                if d not in cap:
                    continue
                if ty == 1 and c == C['a'] and v != 2:
                    on = bool(v)
                    used.add('a')
                elif ty == 1 and c == C['b'] and v == 1:
                    on = not on
                elif ty == 2 and c in (0, 1) and on:
                    fed[c] += v
            steps = sum(o[4] for o in r.got if o[2] == 2 and o[3] == 8) - sum((1 if v > 0 else -1) * abs(v) for d, ty, c, v in ins if d in cap and ty == 2 and c == 8)
            both = fed[0] - fed[1]
            N = abs(case['n'])
            if not self.twice(ins, cap) and not abs(both - case['n'] * steps) <= 2 * (N - 1):
                return Out(viol='scroll(%d): moved by %d, scrolled by %d steps' % (case['n'], both, steps))
        return Out(sig=[(case['mode'], tuple((o[1], o[2], o[3], o[4]) for o in r.got))], n=max(1, n), counts={'pointer events fed': n, 'outputs': len(r.got), 'runs ' + case['mode']: 1})

    @staticmethod
    def twice(ins, cap):
        """is some key down on two devices at once?"""
        down = {}
        for d, ty, c, v in ins:
            if ty == 1 and d in cap:
                s = down.setdefault(c, set())
                if v == 1:
                    s.add(d)
                elif v == 0:
                    s.discard(d)
                if len(s) > 1:
                    return True
        return False


@check
class D09(fw.Check):
    id = 'D09'
    quick, thorough = 10000, 100000
    technique = ('runtime monitoring: metamorphic runs of the real daemon (ASan+UBSan): typing spread over several keyboards versus on one, two configs side by side versus each alone; '
                 'and histories with hotplug against the executable specification')
    level_note = 'random configs and histories; not exhaustive'
    rule = ('merge: one config, 2-5 keyboards, a key down on one of them at a time, versus one keyboard; isolate: two configs of disjoint keys and outputs typed on concurrently (deadlines interleaved and coinciding) versus each alone; '
            'model: 1-3 configs, 2-5 keyboards which come and go, ext. mice; evaluations = runs; distinct = output signatures; oracle: identical timed output / identical projection / specification')

    def case(self, rng, i, tier):
        mode = ('merge', 'isolate', 'model')[i % 3]
        if mode == 'merge':
            keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'capslock', 'space', 'leftshift', 'leftcontrol'], rng.randrange(3, 7))
            c = Conf(rng, keys, depth=2, chords=rng.choice([0, 0.4]), glob=rand_glob(rng, 0.2))
            d = delays(rng, c.timeouts() or [50])
            ty = Typist(rng, t=100000)
            ndev = rng.randrange(2, 6)
            ty.random(keys, rng.randrange(15, 70), d, maxheld=5)
            ty.release_all(d)
            owner, ev = {}, []
            for t, _, code, v in ty.ev:
                if v:
                    owner[code] = rng.randrange(ndev)
                ev.append([max(t, ev[-1][0] + 1) if ev else t, owner[code], code, v])
            return dict(mode=mode, confs={'c.conf': c.text()}, devs=[dict(i=k) for k in range(ndev)], devmap={str(k): 0 for k in range(ndev)}, ev=ev, end=ty.t + 5000000)
        if mode == 'isolate':
            w = dict(key=4, layer=3, overload=2, overloadt=2, overloadt2=2, overloadi=1, lettermod=1, timeout=1.5, oneshot=2, toggle=1, swap=1, setlayout=0.7, macro2=1, clear=0.3)
            confs, evs, end = {}, [], 0
            tmo = rng.sample([10, 30, 50, 100, 200], 2)
            for j, (ks, out) in enumerate(((list('abcde'), list('fghijk')), (list('uvwxy'), list('opqrst')))):
                class CC(Conf):
                    def modkey(self):
                        return self.sym()

                    def macro(self, full=True):
                        return 'macro(%s)' % ' '.join(self.sym() for _ in range(self.rng.randrange(2, 4)))
                keys = rng.sample(ks, rng.randrange(3, 6))
                while True:
                    c = CC(rng, keys, w=w, moded=0, depth=1, out=out, chords=rng.choice([0, 0.4]), tmo=tmo)
                    # layers with modifiers would share the modifier keys of the one virtual keyboard
                    if not any(x in c.text() for x in ('(shift', '(control', '(alt', '(meta', '(altgr')):
                        break
                g = rand_glob(rng, 0.25)
                g.pop('macro_sequence_timeout', None)
                c.glob = g
                text = c.text()
                confs['c%d.conf' % j] = text.replace('[ids]\n*', '[ids]\n' + ('*' if j == 0 else '0002:0001'))
                ty = Typist(rng, t=100000 + rng.choice([0, 1000]), dev=j)
                ty.random(keys, rng.randrange(10, 50), delays(rng, tmo), maxheld=4)
                ty.release_all()
                evs.append(ty.ev)
                end = max(end, ty.t)
            return dict(mode=mode, confs=confs, devs=[dict(i=0), dict(i=1, vendor=2)], devmap={'0': 0, '1': 1}, ev=sorted(evs[0] + evs[1], key=lambda e: e[0]), end=end + 8000000)
        n = rng.choice([1, 2, 2, 3])
        keys = rng.sample(['a', 'b', 'c', 'd', 'capslock', 'space', 'leftshift', 'leftcontrol'], rng.randrange(3, 6))
        bound = keys + (rng.sample(BUTTONS, 1) + rng.sample(WHEEL, 2) if rng.random() < 0.3 else [])
        cs = [Conf(rng, bound, depth=1, chords=rng.choice([0, 0.3]), glob=rand_glob(rng, 0.2)) for _ in range(n)]
        for j, c in enumerate(cs):
            c.ids = ('*' if j == 0 else '%04x:0001' % (j + 1)) + '\n%04x:0001' % (0x30 + j)
        wd = World(rng, keys, delays(rng, sum((c.timeouts() for c in cs), []) or [50]))
        devmap = {}
        for _ in range(rng.randrange(2, 6)):
            j = rng.randrange(n)
            k = wd.add_dev('kbd', vendor=j + 1, node='event%d' % len(wd.devs))
            devmap[str(k)] = j
        if rng.random() < 0.4:
            k = wd.add_dev('mouse', vendor=9, node='event%d' % len(wd.devs))
            devmap[str(k)] = 'ext'
        for _ in range(rng.choice([0, 0, 1, 2])):
            j = rng.randrange(n)
            k = wd.add_dev('mouse', vendor=0x30 + j, product=1, node='event%d' % len(wd.devs))
            devmap[str(k)] = j
        nodes = len(wd.devs)
        for _ in range(rng.randrange(15, 70)):
            wd.step()
            x = rng.random()
            if x < 0.05 and len(wd.live) > 1:
                wd.unplug(rng.choice(wd.live), rng.randrange(2))
                wd.t += 300000
            elif x < 0.1 and len(wd.devs) < 10:
                j = rng.randrange(n)
                k = wd.add_dev('kbd', present=False, vendor=j + 1, node='event%d' % nodes)
                nodes += 1
                devmap[str(k)] = j
                wd.t += 300000
                wd.plug(k)
                wd.t += 300000
            else:
                wd.stroke()
        wd.release_all()
        return dict(mode=mode, confs={'c%d.conf' % j: c.text() for j, c in enumerate(cs)}, devs=wd.devs, devmap=devmap, ev=wd.events(), end=wd.t + 5000000)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        mode = case['mode']
        if mode == 'model':
            r = engine.run(ctx, case)
            if r.inconclusive:
                return Out(inconclusive=r.inconclusive)
            if r.why:
                return Out(viol=r.why)
            return Out(sig=[(mode, len(case['confs']), tuple((o[3], o[4]) for o in r.got))], counts={'runs model': 1, 'outputs': len(r.got)})
        runs = [case]
        if mode == 'merge':
            runs.append(dict(case, ev=[[t, 0, c, v] for t, _, c, v in case['ev']], devs=[dict(i=0)]))
        else:
            for j in (0, 1):
                runs.append(dict(case, ev=[e for e in case['ev'] if e[1] == j]))
        outs = []
        for x in runs:
            r = ctx.run(engine.scenario(x))
            if r.inconclusive():
                return Out(inconclusive='harness')
            if r.died():
                return Out(viol=r.died())
            outs.append(model.outputs(r.lines)[0])
            if mode == 'merge' and [(int(f[4]), int(f[5])) for f in r.lines if f[0] == 'I' and f[3] == '1' and int(f[2]) < 100] != [(c, v) for _, _, c, v in case['ev']]:
                # while it was playing a macro the keyboards were not read in the order of the strokes
                return Out(sig=[], n=0, counts={'merge: read in another order': 1})
        if mode == 'merge':
            why = model.same(outs[1], outs[0])
            if why:
                return Out(viol='typed on several keyboards instead of one: ' + why)
        else:
            for j, alpha in ((0, 'abcdefghijk'), (1, 'uvwxyopqrst')):
                codes = {C[k] for k in alpha}
                a = [o for o in outs[0] if o[3] in codes]
                b = outs[1 + j]
                # timeouts are rounded up to the next millisecond the daemon wakes up in
                k = next((k for k in range(max(len(a), len(b))) if k >= len(a) or k >= len(b) or a[k][1:] != b[k][1:] or abs(a[k][0] - b[k][0]) > 2000), None)
                if k is not None:
                    return Out(viol='config %d with the other in use: output %d is %s, alone it is %s' % (j, k, a[k:k + 1], b[k:k + 1]))
        return Out(sig=[(mode, tuple((o[3], o[4]) for o in outs[0]))], n=len(runs), counts={'runs ' + mode: len(runs), 'outputs': len(outs[0])})


@check
class D10(fw.Check):
    id = 'D10'
    quick, thorough = 12000, 120000
    technique = ('runtime monitoring: LED writes of the real daemon (ASan+UBSan) to every device, against the LED events fed to the virtual keyboard and the layer state of the executable specification at every poll')
    level_note = 'random configs and histories; not exhaustive'
    rule = ('1-3 configs with and without layer_indicator, keyboards, mice and foreign devices, captured or not, which come and go, LED changes from the system, layers of every kind, reloads which switch the option, devices that refuse LED writes; '
            'evaluations = LED changes + polls judged; distinct = sequences of LED writes; oracle: each system LED change is written once to each captured device, in order; otherwise only the caps-lock light of devices whose config has layer_indicator is written, '
            'and at every poll it is on iff a layer other than main and layouts is active')

    def case(self, rng, i, tier):
        n = rng.choice([1, 1, 2, 3])
        keys = rng.sample(['a', 'b', 'c', 'd', 'capslock', 'leftshift', 'leftcontrol'], rng.randrange(3, 6))
        w = dict(key=1, layer=4, oneshot=2, toggle=3, swap=1, overload=2, overloadt=1, overloadt2=1, lettermod=0.5, timeout=0.7, setlayout=2, clear=1, layerm=1)
        cs = []
        ind = rng.random() < 0.75
        for j in range(n):
            g = rand_glob(rng, 0.15)
            x = rng.random()
            if x < 0.75 and ind:
                g['layer_indicator'] = 1
            elif x < 0.8:
                g['layer_indicator'] = 0
            c = Conf(rng, keys, w=w, depth=1, glob=g, chords=rng.choice([0, 0, 0.3]))
            c.ids = '*' if j == 0 else '%04x:0001' % (j + 1)
            if rng.random() < 0.3:
                c.ids += '\n0008:0001'
            cs.append(c)
        wd = World(rng, keys, delays(rng, sum((c.timeouts() for c in cs), []) or [50]))
        devmap, reloads, ipc = {}, [], {}

        def add(present=True):
            x = rng.random()
            j = rng.randrange(n)
            if x < 0.75:
                k = wd.add_dev('kbd', present=present, vendor=j + 1, node='event%d' % len(wd.devs), fail=128 if rng.random() < 0.1 else 0)
                devmap[str(k)] = j
            elif x < 0.85:
                k = wd.add_dev('mouse', present=present, vendor=9, node='event%d' % len(wd.devs))
                devmap[str(k)] = 'ext'
            elif x < 0.92:
                k = wd.add_dev('mouse', present=present, vendor=8, node='event%d' % len(wd.devs))
                js = [j for j, c in enumerate(cs) if '0008:0001' in c.ids]
                if len(js) > 1:
                    for j in js[1:]:
                        cs[j].ids = cs[j].ids.replace('\n0008:0001', '')
                devmap[str(k)] = js[0] if js else 'ext'
            else:
                k = wd.add_dev('kbd', present=present, vendor=0x0fac, product=0x77, node='event%d' % len(wd.devs))
                devmap[str(k)] = None
                if present:
                    wd.live.remove(k)
                return None
            return k
        for _ in range(rng.randrange(1, 5)):
            add()
        nre = 0
        for _ in range(rng.randrange(15, 60)):
            wd.step()
            x = rng.random()
            if x < 0.04 and len(wd.live) > 1:
                wd.unplug(rng.choice(wd.live), rng.randrange(2))
                wd.t += 300000
            elif x < 0.1 and len(wd.devs) < 10:
                k = add(False)
                if k is not None:
                    wd.t += 300000
                    wd.plug(k)
                    wd.t += 300000
            elif x < 0.25:
                wd.put('ev 159 17 %d %d' % (rng.choice([0, 2, 3, 4, 5, 6, 7, 8] if ind else [0, 1, 1, 2, 3, 4, 5, 6, 7, 8]), rng.randrange(2)))
            elif x < 0.28 and nre < 3:
                # reload; the option may change
                nre += 1
                new = []
                for c in cs:
                    new.append(rng.choice([None, None, 0, 1 if ind else 0]))
                reloads.append(new)
                wd.t += 300000
                wd.ev += ipcutil.request(nre, wd.t, ipcutil.RELOAD)
                ipc[nre] = ('reload',)
                wd.t += 300000
            else:
                wd.stroke()
        if rng.random() < 0.7:
            wd.release_all()
        confs = {'c%d.conf' % j: c.text() for j, c in enumerate(cs)}
        ev = wd.events()
        sets = []
        for k, new in enumerate(reloads):
            cf = {}
            for (name, t), v in zip(sorted(confs.items()), new):
                if v is not None:
                    body = '\n'.join(l for l in t.split('\n') if not l.startswith('layer_indicator'))
                    head, rest = body.split('[main]', 1)
                    t = head.replace('[global]\n', '') + '[main]' + rest
                    # the other options stay
                    t += '[global]\nlayer_indicator = %d\n' % v + ''.join(l + '\n' for l in head.split('[global]\n')[1].split('\n') if '=' in l) if '[global]' in head else '[global]\nlayer_indicator = %d\n' % v
                cf[name] = t
            sets.append(cf)
            at = next(e[0] for e in ev if e[1] == 'conn %d' % (k + 1))
            for name, t in cf.items():
                ev.append([at - 1000, 'write etc/keyd/%s %s' % (name, sim.payload(t))])
        return dict(confs=confs, sets=sets, devs=wd.devs, devmap=devmap, ipc=ipc, ev=sorted(ev, key=lambda e: e[0]), end=wd.t + 5000000)

    def shrink(self, case):
        return shrink_strokes(case)

    def run_case(self, ctx, case):
        names = sorted(case['confs'])
        dm = {int(k): v for k, v in case['devmap'].items()}
        reloads = [([spec.Config(s[x]) for x in names], dm) for s in case['sets']]
        r = engine.run(ctx, case, ipc=ipcutil.table(case), reloads=list(reloads))
        if r.inconclusive:
            return Out(inconclusive=r.inconclusive)
        if r.why:
            return Out(viol=r.why)
        gens = [r.configs] + [c for c, _ in reloads]
        gen_ = 0
        captured, light = [], {}
        broken = {d['i'] for d in case['devs'] if d.get('fail')}
        polls = iter(r.model.lights)
        sysleds, writes, owed, sig, n = 0, [], [], [], 0
        pend = None
        capsled = any(isinstance(e[1], str) and e[1].startswith('ev 159 17 1 ') for e in case['ev'])
        for pos, f in enumerate(r.res.lines):
            w = f[0]
            if pend is not None and w in ('CR', 'CZ') and int(f[2]) == pend:
                pend = None
            if w == 'CA' and ipcutil.table(case).get(int(f[2]), ('',))[0] == 'reload':
                gen_ += 1
                pend = int(f[2])
            elif w == 'G':
                d = int(f[2])
                if f[3] == '1' and d < 100:
                    captured.append(d)
                    light.setdefault(d, 0)
                elif d in captured:
                    captured.remove(d)
            elif w in ('RM', 'GONE') and int(f[2]) in captured:
                captured.remove(int(f[2]))
            elif w == 'NOLED':
                return Out(viol='the virtual keyboard does not announce light %s, so the system cannot change it' % f[3])
            elif w == 'I' and f[2] == '159' and f[3] == '17':
                if owed:
                    return Out(viol='the change of light %s to %s did not reach the devices %s' % owed[0])
                want = sorted(d for d in set(captured) if d not in broken)
                if want:
                    owed = [(f[4], f[5], want)]
                sysleds += 1
                n += 1
                sysled = (f[4], f[5])
            elif w == 'L':
                d = int(f[2])
                if f[3] != '17':
                    return Out(viol='wrote event type %s to device %d' % (f[3], d))
                if d not in captured:
                    if d in light and pend is not None:
                        light[d] = int(f[5])
                        continue
                    return Out(viol='light %s of device %d, which is not captured, was set to %s at %s us' % (f[4], d, f[5], f[1]))
                if owed:
                    if (f[4], f[5]) != owed[0][:2] or d not in owed[0][2]:
                        return Out(viol='light %s of device %d was set to %s, expected was light %s to %s on %s' % (f[4], d, f[5], owed[0][0], owed[0][1], owed[0][2]))
                    owed[0][2].remove(d)
                    if not owed[0][2]:
                        owed = []
                    if f[4] == '1':
                        light[d] = int(f[5])
                    sig.append((d, f[4], f[5]))
                    continue
                g = gens[gen_][dm[d]].g if isinstance(dm.get(d), int) else {}
                if pend is not None:
                    g = dict(g, layer_indicator=g.get('layer_indicator') or gens[gen_ - 1][dm[d]].g.get('layer_indicator'))
                if f[4] != '1' or not g.get('layer_indicator'):
                    return Out(viol='light %s of device %d was set to %s at %s us without a reason' % (f[4], d, f[5], f[1]))
                light[d] = int(f[5])
                sig.append((d, f[4], f[5]))
            elif w == 'P':
                if owed:
                    return Out(viol='the change of light %s to %s did not reach the devices %s' % owed[0])
                p, act = next(polls)
                if p != pos:
                    return Out(inconclusive='bookkeeping')
                if pend is not None:
                    continue
                for d in set(captured) - broken:
                    j = dm.get(d)
                    if isinstance(j, int) and gens[gen_][j].g.get('layer_indicator'):
                        n += 1
                        if light[d] != act[j]:
                            return Out(viol='at %s us the caps-lock light of device %d is %s although %s layer of its config is active' % (f[1], d, 'on' if light[d] else 'off', 'a' if act[j] else 'no'))
                    elif isinstance(j, int) and light[d] and not capsled:
                        return Out(viol='at %s us the caps-lock light of device %d is on although its config has no layer_indicator' % (f[1], d))
        return Out(sig=[tuple(sig)] if sig else [], n=n, counts={'system LED changes': sysleds, 'LED writes': len(sig), 'polls judged': n - sysleds, 'reloads': gen_})
