PRIMARY = 1
ATOM = 4
STRING = 31
WINDOW = 33
WM_NAME = 39
WM_CLASS = 67
