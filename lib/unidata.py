"""Code points and the compose sequences applications see, taken from the compose file keyd ships."""
import os, re
REPO = os.environ.get('KEYD_REPO', '/repo')
D36 = '0123456789abcdefghijklmnopqrstuvwxyz'
INDEX = {}
for _l in open(REPO + '/data/keyd.compose', encoding='utf-8'):
    _m = re.match(r'<Cancel> <(.)> <(.)> <(.)> : "(.)"', _l, re.S)
    if _m:
        INDEX[ord(_m.group(4))] = D36.index(_m.group(1)) * 1296 + D36.index(_m.group(2)) * 36 + D36.index(_m.group(3))
