"""Registry of property rules: id -> function(ctx, rep)."""
RULES = {}
FLOOR = {}
PRIMARY = {}


def prop(pid, floor=1, configs=("all",)):
    def w(f):
        RULES.setdefault(pid, []).append(f)
        FLOOR[pid] = FLOOR.get(pid, 0) + floor
        return f
    return w


def load():
    import importlib
    import os
    import pkgutil
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        importlib.import_module("rules." + m.name)
    return RULES
