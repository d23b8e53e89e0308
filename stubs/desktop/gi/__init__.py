def require_version(*a):
    pass
