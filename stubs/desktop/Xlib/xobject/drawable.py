from Xlib.display import Window
