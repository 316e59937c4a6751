"""The checks: one function per property id."""
ALL = {}


def check(pid):
    def deco(f):
        ALL[pid] = f
        return f
    return deco


import importlib, os
for _m in sorted(os.listdir(os.path.dirname(__file__))):
    if _m.endswith('.py') and _m != '__init__.py':
        importlib.import_module('.' + _m[:-3], __name__)
