"""
vsym.api - what a harness uses. A harness is a function of a context; the same
function runs symbolically (SymCx) and on real values (RealCx, for replays).
"""

import importlib
import itertools
import math
import os
import struct
import sys
import traceback
from typing import Any, Callable, Dict, List

from . import sched


class CheckFailed(BaseException):
    """A property check failed (real run)."""


class Skip(BaseException):
    """An assumption doesn't hold (real run)."""


class Case:
    """One harness with fixed parameters."""

    def __init__(self, func, name, params, opts) -> None:
        self.func = func
        self.name = name
        self.params = params
        self.opts = opts


def case(tiers="both", **opts):
    """
    Declare a harness: keyword lists make one case per combination; 'quick'
    and 'thorough' dicts override or add lists for that tier only. Options:
    _max_paths, _deadline, _bounds (text), _inputs ...
    """

    def deco(func):
        func.__vp_case__ = (tiers, opts)
        return func

    return deco


def cases_of(module, tier: str) -> List[Case]:
    """All cases of a property module."""
    out = []
    for name, func in list(vars(module).items()):
        decl = getattr(func, "__vp_case__", None)
        if decl is None or getattr(func, "__module__", "") != module.__name__:
            continue
        tiers, opts = decl
        if tiers not in ("both", tier):
            continue
        opts = dict(opts)
        over = {x: opts.pop(x, {}) for x in ("quick", "thorough")}
        opts.update(over[tier])
        meta = {k: v for k, v in opts.items() if k.startswith("_")}
        grid = {k: v for k, v in opts.items() if not k.startswith("_")}
        keys = list(grid)
        for combo in itertools.product(*[grid[k] for k in keys]):
            params = dict(zip(keys, combo))
            label = name
            if params:
                label += (
                    "["
                    + ",".join(f"{k}={short(v)}" for k, v in params.items())
                    + "]"
                )
            out.append(Case(func, label, params, meta))
    return out


def short(val) -> str:
    """A compact rendering of a parameter."""
    if isinstance(val, (list, tuple)):
        return "+".join(short(x) for x in val)
    return str(getattr(val, "name", val))


class BaseCx:
    """Common to both contexts."""

    symbolic = False

    def __init__(self) -> None:
        self.obs: list = []
        self.fails: list = []
        self.reached: Dict[str, int] = {}
        self.evaluated: Dict[str, int] = {}
        self._undo: list = []
        self._dirs: list = []
        self.names: Dict[str, int] = {}

    @property
    def world(self) -> sched.World:
        """The task scheduler and virtual clock."""
        return sched.W

    def unique(self, name: str) -> str:
        """A unique input name."""
        num = self.names.get(name, 0)
        self.names[name] = num + 1
        return name if num == 0 else f"{name}#{num}"

    def patch(self, obj, name: str, value) -> None:
        """Replace an attribute until the end of the path."""
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(name, missing)
            self._undo.append((obj, name, old, missing))
            obj[name] = value
            return
        old = vars(obj).get(name, missing) if hasattr(
            obj, "__dict__"
        ) else getattr(obj, name, missing)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def stdlib(self, name: str):
        """A module of the standard library (an instrumented copy of it)."""
        if not self.symbolic:
            return importlib.import_module(name)
        from .models import stdlib

        return stdlib(name)

    def undo(self) -> None:
        """Undo all patches."""
        for obj, name, old, missing in reversed(self._undo):
            if isinstance(obj, dict):
                if old is missing:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo = []

    def tempdir(self) -> str:
        """A scratch directory, removed at the end of the path."""
        import tempfile

        path = tempfile.mkdtemp(prefix="vp-")
        self._dirs.append(path)
        return path

    def cleanup(self) -> None:
        """Undo everything a path did outside its own objects."""
        import shutil

        self.undo()
        for path in self._dirs:
            shutil.rmtree(path, ignore_errors=True)
        self._dirs = []

    def reach(self, label: str) -> None:
        """Note that a point was reached."""
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, label: str, value) -> None:
        """Record an outcome, compared between symbolic run and replay."""
        self.obs.append((label, value))

    @staticmethod
    def catch(func: Callable, *args, **kwargs):
        """Call something: (True, result) or (False, exception)."""
        from . import models

        try:
            return True, models.call(func, *args, **kwargs)
        except Exception as exc:  # pylint: disable=broad-except
            return False, exc

    def fail(self, label: str) -> None:
        """An outcome that must not be."""
        self.check(False, label)

    def check_eq(self, left, right, label: str) -> None:
        """Values must be equal."""
        if type(left) in CONTAINERS and type(right) in CONTAINERS:
            self.check(len(left) == len(right), label + " (length)")
            for one, two in zip(left, right):
                self.check_eq(one, two, label)
            return
        self.check(left == right, label)

    # -- tasks

    def tasks(self, *funcs: Callable, preempt: int = 0, free: bool = True):
        """Run functions concurrently; what each returned, or raised."""
        world = sched.W
        world.free_choice = free
        jobs = [
            world.spawn(func, f"task{i}") for i, func in enumerate(funcs)
        ]
        world.budget = preempt
        try:
            world.join(jobs)
        finally:
            world.budget = 0
            world.free_choice = False
        for job in jobs:
            if job.exc is not None:
                raise job.exc
        return [job.value for job in jobs]

    def free_locks(self) -> bool:
        """Whether no lock is held."""
        return all(x.held is None for x in list(sched.LOCKS))

    @staticmethod
    def held_locks() -> list:
        """The locks held now."""
        return [x for x in list(sched.LOCKS) if x.held is not None]

    # -- conditions that don't fork

    def all(self, conds):
        """Conjunction."""
        raise NotImplementedError

    def any(self, conds):
        """Disjunction."""
        raise NotImplementedError

    def implies(self, left, right):
        """Implication of two already evaluated conditions."""
        return self.any([self.neg(left), right])

    def iff(self, left, right):
        """Equivalence of two conditions."""
        return self.any(
            [
                self.all([left, right]),
                self.all([self.neg(left), self.neg(right)]),
            ]
        )

    def same(self, left, right):
        """Whether two nested structures are equal, without forking."""
        conds: list = []
        if not self._pairs(left, right, conds):
            return False
        return self.all(conds)

    def _pairs(self, left, right, conds) -> bool:
        if left is right:
            return True
        if isinstance(left, dict) and isinstance(right, dict):
            if len(left) != len(right):
                return False
            return all(
                key in right and self._pairs(val, right[key], conds)
                for key, val in left.items()
            )
        if isinstance(left, (list, tuple)) and isinstance(
            right, (list, tuple)
        ):
            if len(left) != len(right):
                return False
            return all(self._pairs(a, b, conds) for a, b in zip(left, right))
        cond = left == right
        if cond is True or cond is False:
            return cond
        conds.append(cond)
        return True

    def neg(self, cond):
        """Negation."""
        raise NotImplementedError


CONTAINERS = (list, tuple)


class RealCx(BaseCx):
    """Runs a harness on given inputs."""

    def __init__(self, inputs: Dict[str, Any]) -> None:
        super().__init__()
        self.inputs = inputs

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name: str, low: int, high: int) -> int:
        """An integer in a range."""
        return self._get(self.unique(name), low)

    def bool(self, name: str) -> bool:
        """A truth value."""
        return bool(self._get(self.unique(name), False))

    def pick(self, name: str, num: int) -> int:
        """A real index below 'num' (forks)."""
        val = self._get(self.unique(name), 0)
        return min(max(val, 0), num - 1)

    def preempt(self, count: int, spot: int, num: int) -> int:
        """Which of other tasks goes on at a spot, 0 if none."""
        if self._get(f"sched.at{count}", 0) != spot:
            return 0
        return min(max(self._get(f"sched.to{count}", 1), 1), num)

    def choice(self, name: str, options):
        """One of several options (forks)."""
        options = list(options)
        return options[self.pick(name, len(options))]

    def bytes(self, name: str, size: int, mutable: bool = False):
        """A byte string of fixed length."""
        val = self._get(self.unique(name), "00" * size)
        data = bytes.fromhex(val)
        return bytearray(data) if mutable else data

    def fix(self, name: str, scale: int, low, high) -> float:
        """A float that is a multiple of 2**-scale in [low, high]."""
        num = self._get(self.unique(name), math.ceil(low * (1 << scale)))
        return math.ldexp(float(num), -scale)

    def float(self, name: str, finite: bool = False, nan: bool = True):
        """Any float."""
        val = self._get(self.unique(name), "0000000000000000")
        return struct.unpack(">d", bytes.fromhex(val))[0]

    def text(self, name: str, size: int, low: int = 0, high: int = 0x10FFFF):
        """A string of fixed length."""
        val = self._get(self.unique(name), [low] * size)
        return "".join(chr(x) for x in val)

    def assume(self, cond) -> None:
        """Restrict the inputs."""
        if not cond:
            raise Skip()

    def check(self, cond, label: str) -> None:
        """What must hold."""
        self.evaluated[label] = self.evaluated.get(label, 0) + 1
        if not cond:
            self.fails.append(label)
            raise CheckFailed(label)

    def all(self, conds):
        return all([bool(x) for x in conds])

    def any(self, conds):
        return any([bool(x) for x in conds])

    def neg(self, cond):
        return not cond

    def ite(self, cond, left, right):
        """A value depending on a condition, without forking (numbers)."""
        return left if cond else right


def innermost(exc: BaseException) -> str:
    """File of the frame that raised."""
    frames = traceback.extract_tb(exc.__traceback__)
    own = os.path.dirname(os.path.abspath(__file__))
    names = [
        f.filename for f in frames if not f.filename.startswith(own + os.sep)
    ]
    return names[-1] if names else ""


def is_harness_error(exc: BaseException) -> bool:
    """
    Whether an exception says the harness no longer fits the code (a missing
    name, another signature) rather than that the code misbehaves.
    """
    where = innermost(exc)
    if f"{os.sep}props{os.sep}" not in where:
        return False
    text = str(exc)
    if isinstance(exc, ImportError):
        return True
    if isinstance(exc, AttributeError):
        return "NoneType" not in text
    if isinstance(exc, TypeError):
        return "argument" in text or "not callable" in text
    return isinstance(exc, NameError)


def exc_text(exc: BaseException) -> str:
    """Where an exception comes from."""
    frames = traceback.extract_tb(exc.__traceback__)
    own = os.path.dirname(os.path.abspath(__file__))
    spots = [
        f"{os.path.relpath(f.filename, '/')}:{f.lineno}"
        for f in frames
        if not f.filename.startswith(own + os.sep)
    ]
    return f"{type(exc).__name__}: {str(exc)[:200]} at {spots[-2:]}"


def run_real(kase: Case, inputs: Dict[str, Any]) -> dict:
    """Replay one input; what happened, as JSON-able data."""
    from .values import canon

    cx = RealCx(inputs)
    out: dict = {"status": "ok", "fails": [], "obs": [], "exc": None}
    sched.new_world(cx.pick, cx.preempt)
    import random

    cx.patch(
        random,
        "randint",
        lambda low, high: min(max(cx.int("random", low, high), low), high),
    )
    try:
        kase.func(cx, **kase.params)
    except CheckFailed:
        out["status"] = "fail"
    except Skip:
        out["status"] = "skip"
    except (sched.Deadlock, sched.Livelock) as exc:
        out["status"] = "exc"
        out["exc"] = type(exc).__name__
        out["text"] = exc_text(exc)
    except Exception as exc:  # pylint: disable=broad-except
        out["status"] = "exc"
        out["exc"] = type(exc).__name__
        out["text"] = exc_text(exc)
        out["harness"] = is_harness_error(exc)
    finally:
        sched.W.shutdown()
        cx.cleanup()
    out["fails"] = cx.fails
    for label, value in cx.obs:
        out["obs"].append([label, canon(value)])
    out["evaluated"] = cx.evaluated
    return out


def quiet() -> None:
    """No log output."""
    import logging

    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(20000)
