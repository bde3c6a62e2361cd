"""The cases (harness + oracle) of every property."""
from . import nav, grav, models, files, utils, pure

MODULES = (nav, grav, models, files, utils, pure)


def cases(pid, tier):
    for m in MODULES:
        f = getattr(m, pid, None)
        if f is not None:
            return f(tier == 'thorough')
    raise SystemExit('no check for ' + pid)


def claimed():
    return sorted(n for m in MODULES for n in dir(m) if len(n) == 3 and n[0].isupper() and n[1:].isdigit())
