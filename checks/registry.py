"""All checks by property id."""
import importlib

MODULES = ['engine_checks', 'robust_checks', 'robust2_checks', 'daemon_checks', 'daemon2_checks', 'config_checks', 'client_checks']
_all = None


def all_checks():
    global _all
    if _all is None:
        _all = {}
        for m in MODULES:
            for c in importlib.import_module(m).CHECKS:
                _all[c.id] = c
    return _all


def get(pid):
    return all_checks()[pid]
