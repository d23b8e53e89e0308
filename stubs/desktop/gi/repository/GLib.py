import os, json, subprocess, dbus
from fakecmds import Cmds


def complain(s):
    open(os.environ['FAKE_CMDS'] + '.err', 'a').write(s + '\n')


class MainLoop:
    def __init__(self, *a, **k):
        pass

    def quit(self):
        pass

    def run(self):
        c = Cmds()
        kwin = [subprocess.Popen(['node', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kwin.js'), os.environ['KDE_SESSION_VERSION'], s], stdin=subprocess.PIPE, stdout=subprocess.PIPE) for s in dbus.RUNNING]
        while True:
            m = c.next()
            for h in kwin:
                h.stdin.write(json.dumps(m['client']).encode() + b'\n')
                h.stdin.flush()
                r = json.loads(h.stdout.readline())
                if r['err']:
                    complain('the KWin script fails: ' + r['err'])
                for svc, path, iface, meth, *args in r['out']:
                    try:
                        dbus.deliver(svc, path, iface, meth, args)
                    except Exception as e:
                        complain('the call fails: %r' % e)
