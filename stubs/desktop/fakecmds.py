"""Stand-ins for python-xlib, dbus-python and PyGObject, as far as the application mapper needs them, driven by commands on a pipe."""
import os, json


class Cmds:
    def __init__(self):
        self.fd = os.open(os.environ['FAKE_CMDS'], os.O_RDONLY | os.O_NONBLOCK)
        self.keep = os.open(os.environ['FAKE_CMDS'], os.O_WRONLY)
        self.buf, self.q = b'', []

    def slurp(self, wait=False):
        os.set_blocking(self.fd, wait)
        try:
            b = os.read(self.fd, 65536)
        except BlockingIOError:
            b = b''
        self.buf += b
        *l, self.buf = self.buf.split(b'\n')
        self.q += [json.loads(x) for x in l]

    def next(self):
        while not self.q:
            self.slurp(True)
        return self.q.pop(0)
