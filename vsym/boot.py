"""
vsym.boot - prepares a process: controlled threads, instrumented imports.
"""

import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VTELEM_REPO", "/repo")


def boot(mode: str):
    """Install everything; 'mode' is plain, yield, sym or symyield."""
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    from . import sched
    from .api import quiet

    sched.patch()
    quiet()
    from . import instrument

    roots = {"vtelem": REPO, "props": VERIF}
    if mode in ("sym", "symyield"):
        from .models import Hooks

        hooks = Hooks
        finder = instrument.install(roots, mode, hooks)
    else:
        hooks = type(
            "PlainHooks",
            (),
            {
                "yield_": staticmethod(lambda where: sched.W.yield_(where)),
                "enter": staticmethod(lambda name: None),
                "getitem": staticmethod(lambda obj, key: obj[key]),
                "setitem": staticmethod(
                    lambda obj, key, val: obj.__setitem__(key, val)
                ),
            },
        )
        finder = instrument.install(
            roots, "yield" if mode == "yield" else "plain", hooks
        )
    if mode == "symyield":
        from .models import Hooks as symhooks

        symhooks.yield_ = staticmethod(lambda where: sched.W.yield_(where))
    # harnesses themselves have no scheduling points
    for name in os.listdir(os.path.join(VERIF, "props")):
        if name.endswith(".py"):
            finder.modes["props." + name[:-3]] = (
                "sym" if mode in ("sym", "symyield") else "plain"
            )
    finder.modes["props"] = "plain"
    return finder


def load(prop: str):
    """Import everything a property's harness needs."""
    mod = importlib.import_module("props." + prop.lower())
    return mod
