"""Requests to the control socket in scenarios."""
import struct

SUCCESS, FAIL, BIND, INPUT, MACRO, RELOAD, LISTEN = range(7)
SIZE = 4112


def message(typ, data=b'', timeout=0, sz=None):
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogateescape')
    n = len(data) if sz is None else sz
    return struct.pack('<iI', typ, timeout & 0xffffffff) + data[:4096].ljust(4096, b'\0') + struct.pack('<Q', n & (2**64 - 1))


def request(cid, t, typ, data=b'', timeout=0, close=True, gap=2):
    """scenario items: connect, send, close shortly after (the reply is logged when it arrives)"""
    import sim
    ev = [[t, 'conn %d' % cid], [t, 'send %d %s' % (cid, sim.payload(message(typ, data, timeout)))]]
    return ev


def table(case):
    return {int(k): tuple(v) for k, v in (case.get('ipc') or {}).items()}


def parse(b):
    """-> (type, data) of a reply"""
    typ, tmo = struct.unpack_from('<iI', b)
    sz, = struct.unpack_from('<Q', b, 4104)
    return typ, b[8:8 + min(sz, 4096)]
