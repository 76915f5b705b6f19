"""
vsym.core - path exploration.

One `Engine` explores one case (a harness function plus fixed parameters).
Every run of the harness is one path; symbolic branch conditions are decided
by z3 and the alternatives are queued (depth-first, by re-execution).
"""

import contextlib
import os
import sys
import time
import types
import random
from typing import Any, Dict, List, Optional, Tuple

Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)

import z3  # noqa: E402


class Control(BaseException):
    """Engine control flow, never to be caught by the code under test."""


class PathAbort(Control):
    """This path is infeasible (an assumption can't hold)."""


class PathLimit(Control):
    """A bound of the exploration was reached on this path."""


class Unsupported(Control):
    """The code did something to a symbolic value that isn't modelled."""


class Stats:
    """Counters reported as evidence."""

    def __init__(self) -> None:
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.limited = 0
        self.forks = 0
        self.decisions = 0
        self.checks_proved = 0
        self.checks_trivial = 0
        self.checks_failed = 0
        self.checks_unknown = 0
        self.pinned: Dict[str, int] = {}
        self.unsupported: Dict[str, int] = {}
        self.reached: Dict[str, int] = {}
        self.functions: set = set()
        self.truncated: Dict[str, int] = {}


E: "Optional[Engine]" = None


def cur() -> "Engine":
    """The engine of the path being executed."""
    assert E is not None
    return E


def active() -> bool:
    """Whether symbolic execution is under way."""
    return E is not None


def set_engine(eng: "Optional[Engine]") -> None:
    """Install the active engine."""
    global E
    E = eng


MAX_VALUES = 80


class Engine:
    """Explores all paths of one harness."""

    def __init__(
        self,
        max_paths: int = 20000,
        max_decisions: int = 4000,
        deadline: float = None,
        query_ms: int = 20000,
        dump_queries: int = 0,
        crc_burst: bool = False,
    ) -> None:
        self.stats = Stats()
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.query_ms = query_ms
        self.dump_queries = dump_queries
        self.crc_burst = crc_burst
        self.dumped: List[Tuple[str, str]] = []
        self.work: List[Tuple[list, Any]] = []
        self.identity_hash = 0
        # per-path state
        self.prefix: list = []
        self.pos = 0
        self.trace: list = []
        self.solver: Any = None
        self.model: Any = None
        self.inputs: Dict[str, Tuple[str, Any]] = {}
        self.aborting = False
        self.fresh_id = 0
        self.crc_calls: list = []
        self.crc_memo: dict = {}
        self.float_bytes: list = []
        self.constraints: list = []
        self.pin_log: list = []
        self.path_partial = False
        self.memo: dict = {}
        self.files: dict = {}
        self.tokens: list = []

    # -- solver ------------------------------------------------------------

    def _begin(self, prefix: list, model: Any) -> None:
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", 1)
        self.model = model
        self.inputs = {}
        self.aborting = False
        self.fresh_id = 0
        self.crc_calls = []
        self.crc_memo = {}
        self.float_bytes = []
        self.constraints = []
        self.path_partial = False
        self.memo = {}
        self.files = {}
        self.tokens = []

    def _check(self, *extra) -> Any:
        start = time.monotonic()
        res = self.solver.check(*extra)
        self.stats.solver_s += time.monotonic() - start
        self.stats.queries += 1
        if res == z3.sat:
            self.stats.sat += 1
        elif res == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return res

    def add(self, cond) -> None:
        """Add a path constraint."""
        self.solver.add(cond)
        self.constraints.append(cond)

    def fresh(self, name: str) -> str:
        """A fresh, deterministic variable name on this path."""
        self.fresh_id += 1
        return f"{name}!{self.fresh_id}"

    def axiom(self, cond) -> None:
        """
        Add a definitional constraint (true of every value), which never makes
        a feasible path infeasible.
        """
        self.add(cond)
        if self.model is not None and not self._holds(cond):
            self.model = None

    def _holds(self, cond) -> bool:
        return z3.is_true(self.model.eval(cond, model_completion=True))

    def entailed(self, left, right) -> bool:
        """Whether two terms are equal in every model of this path."""
        key = ("same", left.get_id(), right.get_id())
        if self.memo.get(key):
            return True
        model = self.get_model()
        if model is not None:
            one = model.eval(left, model_completion=True)
            two = model.eval(right, model_completion=True)
            if not one.eq(two):
                return False
        if self._check(left != right) == z3.unsat:
            self.memo[key] = (left, right)
            return True
        return False

    def get_model(self):
        """A model of the current path condition (None if unknown)."""
        if self.model is None:
            res = self._check()
            if res == z3.sat:
                self.model = self.solver.model()
            elif res == z3.unsat:
                self.abort()
        return self.model

    def abort(self) -> None:
        """Give up on this path: it is infeasible."""
        self.aborting = True
        raise PathAbort()

    def limit(self, why: str) -> None:
        """Give up on this path: a bound was reached."""
        self.aborting = True
        self.stats.truncated[why] = self.stats.truncated.get(why, 0) + 1
        raise PathLimit(why)

    def _guard(self) -> None:
        if self.aborting:
            raise PathAbort()
        if len(self.trace) >= self.max_decisions:
            self.limit("decisions")
        if (
            self.deadline is not None
            and len(self.trace) % 16 == 0
            and time.monotonic() > self.deadline
        ):
            self.limit("time")

    def branch(self, cond) -> bool:
        """Decide a symbolic condition, queue the other outcome."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._guard()

        # a prefix being replayed
        if self.pos < len(self.prefix):
            kind, val, _ = self.prefix[self.pos]
            assert kind == "b", ("prefix", kind, val, cond)
            self.pos += 1
            self.trace.append(("b", val, None))
            taken = cond if val else z3.Not(cond)
            self.add(taken)
            if self.model is not None and not self._holds(taken):
                self.model = None
            return val

        self.stats.decisions += 1
        neg = z3.Not(cond)
        side = None
        if self.get_model() is not None:
            side = self._holds(cond)
        if side is None:
            # unknown so far: ask about both
            res_t = self._check(cond)
            if res_t == z3.sat:
                self.model = self.solver.model()
                side = True
            else:
                res_f = self._check(neg)
                if res_f == z3.sat:
                    self.model = self.solver.model()
                    side = False
                elif res_f == z3.unsat and res_t == z3.unsat:
                    self.abort()
                else:
                    side = res_f == z3.unsat
        other = neg if side else cond
        res = self._check(other)
        if res != z3.unsat:
            alt = self.solver.model() if res == z3.sat else None
            self.stats.forks += 1
            self.work.append((self.trace + [("b", not side, None)], alt))
        self.trace.append(("b", side, None))
        self.add(cond if side else neg)
        self.pos += 1
        return side

    @contextlib.contextmanager
    def aside(self):
        """
        Run something that the rest of the path doesn't depend on, outside of
        the record of the path. Its results may only be used (and remembered
        for other paths) if it decided nothing and defined nothing.
        """
        saved = (self.pos, self.prefix, self.trace)
        size, conds = len(self.work), len(self.constraints)
        forks, fresh = self.stats.forks, self.fresh_id
        self.pos, self.prefix, self.trace = 0, [], []
        note = types.SimpleNamespace(used=True)
        self.solver.push()
        try:
            yield note
        finally:
            note.used = self.stats.forks == forks and self.fresh_id == fresh
            self.solver.pop()
            del self.constraints[conds:]
            del self.work[size:]
            self.pos, self.prefix, self.trace = saved
            self.stats.forks = forks
            self.fresh_id = fresh

    def schedule(self, spot: int, num: int) -> int:
        """Whether (and to which of the others) to switch at a spot."""
        if self.pos < len(self.prefix):
            kind, val, _ = self.prefix[self.pos]
            if kind != "s" or val[0] != spot:
                return 0
            assert val[1] <= num, ("prefix", kind, val, num)
            self.pos += 1
            self.trace.append((kind, val, None))
            return val[1]
        self._guard()
        for idx in range(num):
            self.stats.forks += 1
            self.work.append(
                (self.trace + [("s", (spot, idx + 1), None)], None)
            )
        return 0

    def concretize(self, expr, what: str = "value"):
        """Fork over the feasible values of a term, returns one (a z3 value)."""
        expr = z3.simplify(expr)
        if is_value(expr):
            return expr
        self._guard()
        excluded: list = []
        if self.pos < len(self.prefix):
            kind, val, excl = self.prefix[self.pos]
            assert kind == "v", ("prefix", kind, val, expr)
            if val is not None:
                self.pos += 1
                self.trace.append(("v", val, excl))
                cond = expr == val
                self.add(cond)
                if self.model is not None and not self._holds(cond):
                    self.model = None
                return val
            excluded = list(excl)
            for old in excluded:
                self.add(expr != old)
            if self.model is not None and any(
                not self._holds(expr != old) for old in excluded
            ):
                self.model = None
        self.stats.decisions += 1
        model = self.get_model()
        if model is None:
            self.limit("unknown")
        val = model.eval(expr, model_completion=True)
        # is there any other value?
        self.solver.push()
        self.solver.add(expr != val)
        res = self._check()
        alt = self.solver.model() if res == z3.sat else None
        self.solver.pop()
        if res != z3.unsat:
            if len(excluded) + 1 >= MAX_VALUES:
                self.path_partial = True
                key = f"more than {MAX_VALUES} values of {what}"
                self.stats.truncated[key] = (
                    self.stats.truncated.get(key, 0) + 1
                )
            else:
                self.stats.forks += 1
                self.work.append(
                    (self.trace + [("v", None, excluded + [val])], alt)
                )
        self.pos += 1
        self.trace.append(("v", val, excluded))
        self.add(expr == val)
        return val

    def pin(self, expr, why: str):
        """
        Continue with one feasible value only, which makes this path (and so
        the case) partial: used where code isn't modelled.
        """
        expr = z3.simplify(expr)
        if is_value(expr):
            return expr
        model = self.get_model()
        if model is None:
            self.limit("unknown")
        val = model.eval(expr, model_completion=True)
        # only count it if it really removed something
        if self._check(expr != val) != z3.unsat:
            self.path_partial = True
            self.stats.pinned[why] = self.stats.pinned.get(why, 0) + 1
        self.add(expr == val)
        return val

    def assume(self, cond) -> None:
        """Restrict this path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.abort()
        self.add(cond)
        if self.model is not None and self._holds(cond):
            return
        self.model = None
        self.get_model()

    def refute(self, cond) -> Tuple[str, Any]:
        """
        Ask for a counterexample to a condition on this path. Returns
        ("proved"|"trivial"|"failed"|"unknown", model).
        """
        if self.aborting:
            raise PathAbort()
        simp = z3.simplify(cond)
        if z3.is_true(simp):
            self.stats.checks_trivial += 1
            return "trivial", None
        neg = z3.Not(simp)
        if (
            self.dump_queries
            and len(self.dumped) < self.dump_queries
        ):
            tmp = z3.Solver()
            tmp.add(*self.constraints)
            tmp.add(neg)
            smt = tmp.to_smt2()
        else:
            smt = None
        if self.model is not None and self._holds(neg):
            self.stats.checks_failed += 1
            return "failed", self.model
        res = self._check(neg)
        if smt is not None:
            self.dumped.append((smt, str(res)))
        if res == z3.unsat:
            self.stats.checks_proved += 1
            return "proved", None
        if res == z3.sat:
            self.stats.checks_failed += 1
            return "failed", self.solver.model()
        self.stats.checks_unknown += 1
        return "unknown", None

    # -- exploration ---------------------------------------------------------

    def explore(self, run) -> None:
        """
        Explore everything: 'run(engine)' executes the harness once and is
        responsible for recording outcomes.
        """
        self.work = [([], None)]
        while self.work:
            if self.stats.paths >= self.max_paths:
                self.stats.truncated["paths"] = len(self.work)
                break
            if (
                self.deadline is not None
                and time.monotonic() > self.deadline
            ):
                self.stats.truncated["time"] = len(self.work)
                break
            prefix, model = self.work.pop()
            self._begin(prefix, model)
            self.stats.paths += 1
            run(self)


def is_value(expr) -> bool:
    """Whether a z3 term is a literal."""
    return (
        z3.is_int_value(expr)
        or z3.is_true(expr)
        or z3.is_false(expr)
        or z3.is_bv_value(expr)
        or z3.is_fp_value(expr)
    )
