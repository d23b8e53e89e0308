__version__ = (0, 33)
