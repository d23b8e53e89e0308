# Key names as documented by "keyd list-keys" and the key table: code -> (name, alternative, shifted).
KEYS = {
    1: ('esc', 'escape', None),
    2: ('1', None, '!'),
    3: ('2', None, '@'),
    4: ('3', None, '#'),
    5: ('4', None, '$'),
    6: ('5', None, '%'),
    7: ('6', None, '^'),
    8: ('7', None, '&'),
    9: ('8', None, '*'),
    10: ('9', None, '('),
    11: ('0', None, ')'),
    12: ('-', 'minus', '_'),
    13: ('=', 'equal', '+'),
    14: ('backspace', None, None),
    15: ('tab', None, None),
    16: ('q', None, 'Q'),
    17: ('w', None, 'W'),
    18: ('e', None, 'E'),
    19: ('r', None, 'R'),
    20: ('t', None, 'T'),
    21: ('y', None, 'Y'),
    22: ('u', None, 'U'),
    23: ('i', None, 'I'),
    24: ('o', None, 'O'),
    25: ('p', None, 'P'),
    26: ('[', 'leftbrace', '{'),
    27: (']', 'rightbrace', '}'),
    28: ('enter', None, None),
    29: ('leftcontrol', None, None),
    30: ('a', None, 'A'),
    31: ('s', None, 'S'),
    32: ('d', None, 'D'),
    33: ('f', None, 'F'),
    34: ('g', None, 'G'),
    35: ('h', None, 'H'),
    36: ('j', None, 'J'),
    37: ('k', None, 'K'),
    38: ('l', None, 'L'),
    39: (';', 'semicolon', ':'),
    40: ("'", 'apostrophe', '"'),
    41: ('`', 'grave', '~'),
    42: ('leftshift', None, None),
    43: ('\\', 'backslash', '|'),
    44: ('z', None, 'Z'),
    45: ('x', None, 'X'),
    46: ('c', None, 'C'),
    47: ('v', None, 'V'),
    48: ('b', None, 'B'),
    49: ('n', None, 'N'),
    50: ('m', None, 'M'),
    51: (',', 'comma', '<'),
    52: ('.', 'dot', '>'),
    53: ('/', 'slash', '?'),
    54: ('rightshift', None, None),
    55: ('kpasterisk', None, None),
    56: ('leftalt', None, None),
    57: ('space', None, None),
    58: ('capslock', None, None),
    59: ('f1', None, None),
    60: ('f2', None, None),
    61: ('f3', None, None),
    62: ('f4', None, None),
    63: ('f5', None, None),
    64: ('f6', None, None),
    65: ('f7', None, None),
    66: ('f8', None, None),
    67: ('f9', None, None),
    68: ('f10', None, None),
    69: ('numlock', None, None),
    70: ('scrolllock', None, None),
    71: ('kp7', None, None),
    72: ('kp8', None, None),
    73: ('kp9', None, None),
    74: ('kpminus', None, None),
    75: ('kp4', None, None),
    76: ('kp5', None, None),
    77: ('kp6', None, None),
    78: ('kpplus', None, None),
    79: ('kp1', None, None),
    80: ('kp2', None, None),
    81: ('kp3', None, None),
    82: ('kp0', None, None),
    83: ('kpdot', None, None),
    84: ('iso-level3-shift', None, None),
    85: ('zenkakuhankaku', None, None),
    86: ('102nd', None, None),
    87: ('f11', None, None),
    88: ('f12', None, None),
    89: ('ro', None, None),
    90: ('katakana', None, None),
    91: ('hiragana', None, None),
    92: ('henkan', None, None),
    93: ('katakanahiragana', None, None),
    94: ('muhenkan', None, None),
    95: ('kpjpcomma', None, None),
    96: ('kpenter', None, None),
    97: ('rightcontrol', None, None),
    98: ('kpslash', None, None),
    99: ('sysrq', None, None),
    100: ('rightalt', None, None),
    101: ('linefeed', None, None),
    102: ('home', None, None),
    103: ('up', None, None),
    104: ('pageup', None, None),
    105: ('left', None, None),
    106: ('right', None, None),
    107: ('end', None, None),
    108: ('down', None, None),
    109: ('pagedown', None, None),
    110: ('insert', None, None),
    111: ('delete', None, None),
    112: ('macro', None, None),
    113: ('mute', None, None),
    114: ('volumedown', None, None),
    115: ('volumeup', None, None),
    116: ('power', None, None),
    117: ('kpequal', None, None),
    118: ('kpplusminus', None, None),
    119: ('pause', None, None),
    120: ('scale', None, None),
    121: ('kpcomma', None, None),
    122: ('hangeul', None, None),
    123: ('hanja', None, None),
    124: ('yen', None, None),
    125: ('leftmeta', None, None),
    126: ('rightmeta', None, None),
    127: ('compose', None, None),
    128: ('stop', None, None),
    129: ('again', None, None),
    130: ('props', None, None),
    131: ('undo', None, None),
    132: ('front', None, None),
    133: ('copy', None, None),
    134: ('open', None, None),
    135: ('paste', None, None),
    136: ('find', None, None),
    137: ('cut', None, None),
    138: ('help', None, None),
    139: ('menu', None, None),
    140: ('calc', None, None),
    141: ('setup', None, None),
    142: ('sleep', None, None),
    143: ('wakeup', None, None),
    144: ('file', None, None),
    145: ('sendfile', None, None),
    146: ('deletefile', None, None),
    147: ('xfer', None, None),
    148: ('scrolldown', None, None),
    149: ('scrollup', None, None),
    150: ('www', None, None),
    151: ('msdos', None, None),
    152: ('coffee', None, None),
    153: ('display', None, None),
    154: ('cyclewindows', None, None),
    155: ('mail', None, None),
    156: ('bookmarks', None, None),
    157: ('computer', None, None),
    158: ('back', None, None),
    159: ('forward', None, None),
    160: ('closecd', None, None),
    161: ('ejectcd', None, None),
    162: ('ejectclosecd', None, None),
    163: ('nextsong', None, None),
    164: ('playpause', None, None),
    165: ('previoussong', None, None),
    166: ('stopcd', None, None),
    167: ('record', None, None),
    168: ('rewind', None, None),
    169: ('phone', None, None),
    170: ('iso', None, None),
    171: ('config', None, None),
    172: ('homepage', None, None),
    173: ('refresh', None, None),
    174: ('exit', None, None),
    175: ('move', None, None),
    176: ('edit', None, None),
    177: ('zoom', None, None),
    178: ('mouseback', None, None),
    179: ('kpleftparen', None, None),
    180: ('kprightparen', None, None),
    181: ('new', None, None),
    182: ('redo', None, None),
    183: ('f13', None, None),
    184: ('f14', None, None),
    185: ('f15', None, None),
    186: ('f16', None, None),
    187: ('f17', None, None),
    188: ('f18', None, None),
    189: ('f19', None, None),
    190: ('f20', None, None),
    191: ('f21', 'prog1', None),
    192: ('f22', 'prog2', None),
    193: ('f23', 'prog3', None),
    194: ('f24', 'prog4', None),
    195: ('noop', None, None),
    200: ('playcd', None, None),
    201: ('pausecd', None, None),
    202: ('scrollleft', None, None),
    203: ('scrollright', None, None),
    204: ('dashboard', None, None),
    205: ('suspend', None, None),
    206: ('close', None, None),
    207: ('play', None, None),
    208: ('fastforward', None, None),
    209: ('bassboost', None, None),
    210: ('print', None, None),
    211: ('hp', None, None),
    212: ('camera', None, None),
    213: ('sound', None, None),
    214: ('question', None, None),
    215: ('email', None, None),
    216: ('chat', None, None),
    217: ('search', None, None),
    218: ('connect', None, None),
    219: ('finance', None, None),
    220: ('sport', None, None),
    221: ('shop', None, None),
    222: ('voicecommand', None, None),
    223: ('cancel', None, None),
    224: ('brightnessdown', None, None),
    225: ('brightnessup', None, None),
    226: ('media', None, None),
    227: ('switchvideomode', None, None),
    228: ('kbdillumtoggle', None, None),
    229: ('kbdillumdown', None, None),
    230: ('kbdillumup', None, None),
    231: ('send', None, None),
    232: ('reply', None, None),
    233: ('forwardmail', None, None),
    234: ('save', None, None),
    235: ('documents', None, None),
    236: ('battery', None, None),
    237: ('bluetooth', None, None),
    238: ('wlan', None, None),
    239: ('uwb', None, None),
    240: ('unknown', None, None),
    241: ('next', None, None),
    242: ('prev', None, None),
    243: ('cycle', None, None),
    244: ('auto', None, None),
    245: ('off', None, None),
    246: ('wwan', None, None),
    247: ('rfkill', None, None),
    248: ('micmute', None, None),
    249: ('leftmouse', None, None),
    250: ('middlemouse', None, None),
    251: ('rightmouse', None, None),
    252: ('mouse1', None, None),
    253: ('mouse2', None, None),
    254: ('fn', None, None),
    255: ('mouseforward', None, None),
}
