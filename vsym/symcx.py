"""
vsym.symcx - the symbolic context, and the exploration of one case.
"""

import math
import random
import struct
import sys
import time
import types
import zlib
from typing import Any, Dict, List

from . import core, sched
from .api import BaseCx, Case, exc_text, is_harness_error
from .core import z3
from .models import Hooks
from .values import (
    FP64,
    SymBool,
    SymBytes,
    SymFix,
    SymFP,
    SymInt,
    SymStr,
    byte_val,
    bool_term,
    eval_model,
    fp_value,
    is_sym,
    lift,
    mkbool,
    mkint,
    real,
    truth,
)


class CheckStop(core.Control):
    """Stops a path after a failed check."""


class SymCx(BaseCx):
    """Runs a harness on symbolic inputs."""

    symbolic = True

    def __init__(self, eng: core.Engine) -> None:
        super().__init__()
        self.eng = eng
        self.failures: list = []

    def int(self, name: str, low: int, high: int):
        if low == high:
            self.unique(name)
            return low
        name = self.unique(name)
        var = z3.Int(name)
        self.eng.axiom(z3.And(var >= low, var <= high))
        self.eng.inputs[name] = ("int", var)
        return SymInt(var, low, high)

    def bool(self, name: str):
        name = self.unique(name)
        var = z3.Bool(name)
        self.eng.inputs[name] = ("bool", var)
        return SymBool(var)

    def pick(self, name: str, num: int) -> int:
        if num <= 1:
            self.unique(name)
            return 0
        val = self.int(name, 0, num - 1)
        for idx in range(num - 1):
            if val == idx:
                return idx
        return num - 1

    def preempt(self, count: int, spot: int, num: int) -> int:
        """
        Which of other tasks goes on at a spot, 0 if none. Where the tasks are
        preempted is a symbolic integer: every value is a path.
        """
        eng = self.eng
        name = f"sched.at{count}"
        if name not in eng.inputs:
            var = z3.Int(name)
            eng.inputs[name] = ("int", var)
            taken = [x for x in eng.prefix[eng.pos :] if x[0] == "s"]
            target = taken[0][1][0] if taken else 0
            eng.add(var == target)
            if taken:
                other = z3.Int(f"sched.to{count}")
                eng.inputs[f"sched.to{count}"] = ("int", other)
                eng.add(other == taken[0][1][1])
            eng.model = None
        return eng.schedule(spot, num)

    def choice(self, name: str, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def bytes(self, name: str, size: int, mutable: bool = False):
        name = self.unique(name)
        elems: list = []
        for idx in range(size):
            var = z3.Int(f"{name}.{idx}")
            self.eng.axiom(z3.And(var >= 0, var <= 255))
            elems.append(SymInt(var, 0, 255))
        self.eng.inputs[name] = ("bytes", elems)
        return SymBytes(list(elems), mutable)

    def fix(self, name: str, scale: int, low, high):
        name = self.unique(name)
        lo = math.ceil(low * (1 << scale))
        hi = math.floor(high * (1 << scale))
        var = z3.Int(name)
        self.eng.axiom(z3.And(var >= lo, var <= hi))
        self.eng.inputs[name] = ("int", var)
        return SymFix(var, scale, lo, hi)

    def float(self, name: str, finite: bool = False, nan: bool = True):
        name = self.unique(name)
        var = z3.FP(name, FP64)
        if finite:
            self.eng.axiom(
                z3.Not(z3.Or(z3.fpIsNaN(var), z3.fpIsInf(var)))
            )
        elif not nan:
            self.eng.axiom(z3.Not(z3.fpIsNaN(var)))
        self.eng.inputs[name] = ("fp", var)
        return SymFP(var)

    def text(self, name: str, size: int, low: int = 0, high: int = 0x10FFFF):
        name = self.unique(name)
        chars: list = []
        for idx in range(size):
            var = z3.Int(f"{name}.{idx}")
            self.eng.axiom(z3.And(var >= low, var <= high))
            if low <= 0xD800 and high >= 0xDFFF:
                self.eng.axiom(z3.Or(var < 0xD800, var > 0xDFFF))
            chars.append(SymInt(var, low, high))
        self.eng.inputs[name] = ("text", chars)
        return SymStr(chars) if size else ""

    def assume(self, cond) -> None:
        if isinstance(cond, bool) and not is_sym(cond):
            if not cond:
                self.eng.abort()
            return
        self.eng.assume(truth(cond))

    def check(self, cond, label: str) -> None:
        self.evaluated[label] = self.evaluated.get(label, 0) + 1
        term = truth(cond) if is_sym(cond) else z3.BoolVal(bool(cond))
        res, model = self.eng.refute(term)
        if res == "failed":
            fixed = realize(self.eng, z3.Not(term), model)
            self.fails.append(label)
            self.failures.append(
                (label, None if fixed is None else self.values(fixed))
            )
            self.eng.aborting = True
            raise CheckStop()
        if res == "unknown":
            self.reach("unknown:" + label)

    def values(self, model) -> Dict[str, Any]:
        """The inputs under a model."""
        out: Dict[str, Any] = {}
        for name, (kind, term) in self.eng.inputs.items():
            if kind == "int":
                out[name] = model.eval(term, model_completion=True).as_long()
            elif kind == "bool":
                out[name] = z3.is_true(
                    model.eval(term, model_completion=True)
                )
            elif kind == "bytes":
                out[name] = bytes(
                    model.eval(x.e, model_completion=True).as_long()
                    for x in term
                ).hex()
            elif kind == "text":
                out[name] = [
                    model.eval(x.e, model_completion=True).as_long()
                    for x in term
                ]
            elif kind == "fp":
                out[name] = struct.pack(
                    ">d",
                    fp_value(model.eval(term, model_completion=True)),
                ).hex()
        return out

    def all(self, conds):
        conds = list(conds)
        if not any(is_sym(x) for x in conds):
            return all([bool(x) for x in conds])
        return mkbool(z3.And(*[truth(x) for x in conds]))

    def any(self, conds):
        conds = list(conds)
        if not any(is_sym(x) for x in conds):
            return any([bool(x) for x in conds])
        return mkbool(z3.Or(*[truth(x) for x in conds]))

    def neg(self, cond):
        return mkbool(z3.Not(truth(cond))) if is_sym(cond) else not cond

    def ite(self, cond, left, right):
        if not is_sym(cond):
            return left if cond else right
        left, right = lift(left), lift(right)
        los, his = (left.lo, right.lo), (left.hi, right.hi)
        return mkint(
            z3.If(truth(cond), left.e, right.e),
            None if None in los else min(los),
            None if None in his else max(his),
        )


def realize(eng: core.Engine, extra, model):
    """
    A model in which every checksum is the real one (checksums of symbolic
    data are uninterpreted while exploring); None if there's none nearby.
    """
    todo = [
        (elems, init, res)
        for elems, init, res in eng.crc_calls
        if is_sym(res)
    ]
    if not todo and not eng.float_bytes:
        return model
    solver = z3.Solver()
    solver.set("timeout", eng.query_ms)
    solver.add(*eng.constraints)
    if extra is not None:
        solver.add(extra)
    for term, scale, code, parts in eng.float_bytes:
        num = model.eval(term, model_completion=True).as_long()
        solver.add(term == num)
        data = struct.pack(">" + code, math.ldexp(float(num), -scale))
        for part, byte in zip(parts, data):
            solver.add(part == byte)
    if eng.float_bytes:
        if solver.check() != z3.sat:
            return None
        model = solver.model()
    for elems, init, res in todo:
        vals = []
        for elem in elems:
            val = byte_val(elem)
            if is_sym(val):
                num = model.eval(val.e, model_completion=True).as_long()
                solver.add(val.e == num)
                vals.append(num)
            else:
                vals.append(val)
        start = (
            model.eval(init.e, model_completion=True).as_long()
            if is_sym(init)
            else init
        )
        if is_sym(init):
            solver.add(init.e == start)
        solver.add(res.e == zlib.crc32(bytes(vals), start))
        if solver.check() != z3.sat:
            return None
        model = solver.model()
    return model


class Snapshot:
    """The mutable state reachable from modules, to be put back."""

    def __init__(self, prefixes) -> None:
        self.saved: list = []
        self.seen: set = set()
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] in prefixes and isinstance(
                mod, types.ModuleType
            ):
                self._dict(mod.__dict__, prefixes, True)
        self.prefixes = prefixes

    def _dict(self, obj, prefixes, module=False) -> None:
        if id(obj) in self.seen:
            return
        self.seen.add(id(obj))
        copy = dict(obj)
        self.saved.append(("dict", obj, copy))
        for key, val in copy.items():
            if module and isinstance(key, str) and key.startswith("__"):
                continue
            self._value(val, prefixes)

    def _value(self, val, prefixes) -> None:
        if id(val) in self.seen:
            return
        if type(val) in (int, str, float, bool, bytes, type(None)):
            return
        if isinstance(val, (types.ModuleType, types.FunctionType)):
            return
        if isinstance(val, type):
            if (getattr(val, "__module__", "") or "").split(".")[
                0
            ] not in prefixes:
                return
            self.seen.add(id(val))
            attrs = dict(vars(val))
            self.saved.append(("class", val, attrs))
            for key, item in attrs.items():
                if not key.startswith("__"):
                    self._value(item, prefixes)
            return
        if isinstance(val, dict):
            self._dict(val, prefixes)
        elif isinstance(val, list):
            self.seen.add(id(val))
            self.saved.append(("list", val, list(val)))
            for item in val:
                self._value(item, prefixes)
        elif isinstance(val, set):
            self.seen.add(id(val))
            self.saved.append(("set", val, set(val)))
        elif isinstance(val, tuple):
            for item in val:
                self._value(item, prefixes)
        elif type(val).__module__.split(".")[0] in prefixes and hasattr(
            val, "__dict__"
        ):
            self.seen.add(id(val))
            self._dict(val.__dict__, prefixes)

    def restore(self) -> None:
        """Put everything back."""
        for kind, obj, copy in self.saved:
            if kind == "dict":
                if len(obj) != len(copy) or any(
                    obj.get(k, self) is not v for k, v in copy.items()
                ):
                    dict.clear(obj)
                    dict.update(obj, copy)
            elif kind == "list":
                if len(obj) != len(copy) or any(
                    x is not y for x, y in zip(obj, copy)
                ):
                    obj[:] = copy
            elif kind == "set":
                if obj != copy:
                    obj.clear()
                    obj.update(copy)
            else:
                now = vars(obj)
                for key in list(now):
                    if key not in copy and not key.startswith("_"):
                        delattr(obj, key)
                for key, val in copy.items():
                    if (
                        not key.startswith("__")
                        and now.get(key, self) is not val
                    ):
                        try:
                            setattr(obj, key, val)
                        except (AttributeError, TypeError):
                            pass


SNAP: List[Any] = []


def explore(kase: Case, limits: dict) -> dict:
    """Explore one case completely; what was found, as plain data."""
    start = time.monotonic()
    if not SNAP:
        SNAP.append(Snapshot(("vtelem", "props")))
    snap = SNAP[0]
    opts = kase.opts
    eng = core.Engine(
        max_paths=opts.get("_max_paths", limits.get("max_paths", 20000)),
        max_decisions=opts.get("_max_decisions", 6000),
        deadline=start + opts.get("_deadline", limits["deadline"]),
        query_ms=opts.get("_query_ms", limits.get("query_ms", 20000)),
        dump_queries=limits.get("dump_queries", 0),
        crc_burst=opts.get("_burst", False),
    )
    out: Dict[str, Any] = {
        "case": kase.name,
        "failures": [],
        "samples": [],
        "notes": {},
        "partial": 0,
        "completed": 0,
        "unrealised": 0,
        "unsampled": 0,
        "reached": {},
        "evaluated": {},
        "schedule_points": 0,
    }
    keep = limits.get("samples", 30)
    labels: Dict[str, int] = {}

    def note(text: str) -> None:
        out["notes"][text] = out["notes"].get(text, 0) + 1

    def run(eng_: core.Engine) -> None:
        core.set_engine(eng_)
        cx = SymCx(eng_)
        sched.new_world(cx.pick, cx.preempt)
        cx.patch(
            random,
            "randint",
            lambda low, high: cx.int("random", real(low), real(high)),
        )
        status, exc_name, text = "ok", None, ""
        try:
            kase.func(cx, **kase.params)
        except CheckStop:
            status = "fail"
        except core.PathAbort:
            status = "abort"
            eng_.stats.aborted += 1
        except core.PathLimit:
            status = "limit"
            eng_.stats.limited += 1
        except core.Unsupported as exc:
            status = "unsupported"
            note("unsupported: " + str(exc))
        except (sched.Deadlock, sched.Livelock) as exc:
            status, exc_name = "exc", type(exc).__name__
            text = exc_text(exc)
        except z3.Z3Exception as exc:
            status = "unsupported"
            note("solver: " + exc_text(exc))
        except Exception as exc:  # pylint: disable=broad-except
            status, exc_name = "exc", type(exc).__name__
            text = exc_text(exc)
            if is_harness_error(exc):
                status = "harness"
                note("harness: " + text)
        finally:
            out["schedule_points"] += sched.W.points
            was = eng_.aborting
            eng_.aborting = True
            try:
                sched.W.shutdown()
            finally:
                eng_.aborting = was
            cx.cleanup()
            snap.restore()
        for key, num in cx.reached.items():
            out["reached"][key] = out["reached"].get(key, 0) + num
        for key, num in cx.evaluated.items():
            out["evaluated"][key] = out["evaluated"].get(key, 0) + num
        if eng_.path_partial:
            out["partial"] += 1

        try:
            if status == "fail":
                label, vals = cx.failures[-1]
                if vals is None:
                    note("counterexample needs a checksum collision: " + label)
                    out["unrealised"] += 1
                elif labels.get(label, 0) < 3:
                    labels[label] = labels.get(label, 0) + 1
                    out["failures"].append(
                        {"label": label, "inputs": vals, "kind": "check"}
                    )
            elif status == "exc":
                label = f"exception {exc_name}"
                if labels.get(label, 0) < 3:
                    eng_.aborting = False
                    model = eng_.get_model()
                    fixed = (
                        None
                        if model is None
                        else realize(eng_, None, model)
                    )
                    if fixed is None:
                        note("unrealised exception: " + text)
                        out["unrealised"] += 1
                    else:
                        labels[label] = labels.get(label, 0) + 1
                        out["failures"].append(
                            {
                                "label": label,
                                "inputs": cx.values(fixed),
                                "kind": "exc",
                                "exc": exc_name,
                                "text": text,
                            }
                        )
            elif status == "ok":
                out["completed"] += 1
                cx.reach("end")
                out["reached"]["end"] = out["reached"].get("end", 0) + 1
                # reservoir of paths to replay
                num = out["completed"]
                slot = None
                if num <= keep:
                    slot = num - 1
                else:
                    cand = RNG.randrange(num)
                    if cand < keep:
                        slot = cand
                if slot is not None:
                    model = eng_.get_model()
                    fixed = (
                        None
                        if model is None
                        else realize(eng_, None, model)
                    )
                    if fixed is None:
                        out["unsampled"] += 1
                    else:
                        item = {
                            "inputs": cx.values(fixed),
                            "obs": [
                                [k, eval_model(v, fixed)] for k, v in cx.obs
                            ],
                        }
                        if slot < len(out["samples"]):
                            out["samples"][slot] = item
                        else:
                            out["samples"].append(item)
        except core.Control:
            note("model of a finished path not available")
        except z3.Z3Exception as exc:
            note("solver: " + exc_text(exc))
        finally:
            core.set_engine(None)
        if len(out["failures"]) >= 12:
            eng_.work = []
            note("stopped after 12 counterexamples")

    RNG.seed(limits.get("seed", 1))
    Hooks.functions = set()
    eng.explore(run)
    stats = eng.stats
    out["stats"] = {
        "paths": stats.paths,
        "aborted": stats.aborted,
        "limited": stats.limited,
        "forks": stats.forks,
        "decisions": stats.decisions,
        "queries": stats.queries,
        "solver_s": round(stats.solver_s, 3),
        "sat": stats.sat,
        "unsat": stats.unsat,
        "unknown": stats.unknown,
        "checks_proved": stats.checks_proved,
        "checks_trivial": stats.checks_trivial,
        "checks_failed": stats.checks_failed,
        "checks_unknown": stats.checks_unknown,
    }
    out["pinned"] = stats.pinned
    out["unsupported"] = stats.unsupported
    out["truncated"] = stats.truncated
    out["functions"] = sorted(Hooks.functions)
    out["dumped"] = eng.dumped
    out["wall_s"] = round(time.monotonic() - start, 3)
    return out


RNG = random.Random(1)
