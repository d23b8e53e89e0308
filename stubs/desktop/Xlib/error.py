class XError(Exception):
    pass


class BadWindow(XError):
    pass


class BadMatch(XError):
    pass
