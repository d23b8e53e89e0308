import dbus


class BusName:
    def __init__(self, name, bus=None, **k):
        dbus.NAMES.add(name)


class Object:
    def __init__(self, conn=None, object_path=None, bus_name=None):
        dbus.OBJECTS[object_path] = self


def method(iface, in_signature=None, out_signature=None, **k):
    def deco(f):
        f._dbus_method = iface
        return f
    return deco
