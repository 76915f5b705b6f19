"""C20: state machines."""

from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

YIELD = True

BOUNDS = {
    "quick": "machines of 3 states, 3 steps, each going anywhere (also to an "
    "unknown state or nowhere), every hook agreeing, refusing or raising; 2 "
    "threads of a step each with 2 preemptions",
    "thorough": "4 steps; 3 threads, 3 preemptions",
}
OUTSIDE = (
    "counters of a step in which a hook raised, other than that it isn't "
    "counted as a step of the machine; hooks that use the machine itself"
)


class Oops(Exception):
    """What hooks raise."""


class Machine:
    """A state machine, with its expected behaviour."""

    def __init__(self, cx, names, env, hooks=True, initial=None):
        self.cx = cx
        self.names = names
        self.env = env
        self.log = []
        self.goal = None
        self.step = 0
        self.answers = {}
        self.hooks = hooks
        self.counts = {
            "machine.m." + x: 0
            for x in ("enter_fails", "exit_fails", "transitions", "iterations")
        }
        for name in names:
            for what in (
                "enter_attempts", "enter_successes", "exit_attempts",
                "exit_successes", "iterations",
            ):
                self.counts[f"state.{name}.{what}"] = 0
        self.states = {x: self.make(x) for x in names}
        self.current = names[0] if initial is None else initial
        self.machine = StateMachine(
            "m",
            list(self.states.values()),
            None if initial is None else self.states[initial],
            {"known": 1},
            env,
        )
        cx.check(
            not hooks or self.log == [("enter", self.current, self.current)],
            "the initial state is entered, once",
        )
        self.counts[f"state.{self.current}.enter_attempts"] += 1
        self.counts[f"state.{self.current}.enter_successes"] += 1

    def make(self, name):
        """A state with its hooks."""

        def run(data):
            self.log.append(("run", name, data["known"], data["given"]))
            if self.goal == "raise":
                raise Oops()
            return self.goal

        def enter(prev, data):
            self.log.append(("enter", name, prev))
            return self.answer("enter")

        def leave(new, data):
            self.log.append(("leave", name, new))
            return self.answer("leave")

        if not self.hooks:
            return State(name, run, env=self.env)
        return State(name, run, enter, leave, self.env)

    def answer(self, what):
        """What a hook answers."""
        res = self.answers.get(what, True)
        if res is None:
            raise Oops()
        return res

    def run(self, goal, enter=True, leave=True):
        """One step."""
        cx = self.cx
        self.step += 1
        self.goal = goal
        self.answers = {"enter": enter, "leave": leave}
        self.log.clear()
        before = self.current
        ok, res = cx.catch(self.machine.run, {"given": self.step})
        want = [("run", before, 1, self.step)]
        raised = goal == "raise" or goal not in self.names
        if goal != "raise":
            self.count(before, "iterations")
        if not raised and goal != before:
            if self.hooks:
                want.append(("leave", before, goal))
                raised = leave is None
            if not raised:
                self.count(before, "exit_attempts")
                if leave:
                    self.count(before, "exit_successes")
                    if self.hooks:
                        want.append(("enter", goal, before))
                        raised = enter is None
                    if not raised:
                        self.count(goal, "enter_attempts")
                        if enter:
                            self.count(goal, "enter_successes")
                            self.counts["machine.m.transitions"] += 1
                            self.current = goal
                        else:
                            self.counts["machine.m.enter_fails"] += 1
                else:
                    self.counts["machine.m.exit_fails"] += 1
        if not raised:
            self.counts["machine.m.iterations"] += 1
        cx.check(self.log == want, "hooks that ran")
        cx.check(ok != raised, "fails only if something failed")
        if ok:
            cx.check(res[0] is self.states[before], "where it was")
            cx.check(res[1] is self.states[self.current], "where it is")
        self.check()

    def count(self, name, what):
        """Count for a state."""
        self.counts[f"state.{name}.{what}"] += 1

    def check(self):
        """State and counters."""
        cx = self.cx
        cx.check(self.machine.current_state == self.current, "its state")
        if self.env is None:
            return
        for name, want in self.counts.items():
            num = self.env.channel_registry.get_id(name)
            cx.check(num is not None, "a counter is published")
            cx.check(self.env.get_value(num) == want, "counter")


@case(
    first=["a", "b", "c", "none", "raise"],
    initial=[None, "b"],
    metrics=[True, False],
    quick={"steps": [3]},
    thorough={"steps": [4]},
    _max_paths=100000,
)
def steps(cx, first, initial, metrics, steps):
    """Any steps of a machine."""
    env = TelemetryEnvironment(256, 0.0, None) if metrics else None
    hooks = True if metrics else cx.bool("hooks")
    machine = Machine(cx, ["a", "b", "c"], env, hooks, initial)
    for step in range(steps):
        options = ["a", "b", "c", "none", "raise"]
        if step < steps - 1:
            options = ["a", "b", "none"]
        goal = first if step == 0 else cx.choice(f"goal{step}", options)
        enter = leave = True
        if hooks and goal in ("a", "b", "c") and goal != machine.current:
            enter, leave = cx.choice(
                f"answers{step}",
                [(True, True), (False, True), (None, True), (True, False),
                 (True, None)],
            )
        machine.run(goal, enter, leave)
    cx.check(cx.free_locks(), "no lock is held")


@case()
def creation(cx):
    """Machines that can't be made."""
    agrees = cx.bool("agrees")
    states = [
        State("a", None, lambda *_: agrees),
        State("b"),
    ]
    initial = cx.choice("initial", [None, 0, 1, "other"])
    first = None
    if initial is not None:
        first = State("c") if initial == "other" else states[initial]
    ok, machine = cx.catch(StateMachine, "m", states, first)
    good = initial != "other" and (initial == 1 or agrees)
    cx.check(ok == good, "made only if the initial state is entered")
    cx.check(not cx.catch(StateMachine, "m", [])[0], "not without states")
    if ok:
        name = "b" if initial == 1 else "a"
        cx.check(machine.run()[1].name == name, "stays without a run hook")
        cx.check(machine.current_state == name, "at its initial state")


@case(
    quick={"metrics": [False], "threads": [2], "preempt": [2]},
    thorough={"metrics": [False], "threads": [2, 3], "preempt": [3]},
    _max_paths=100000,
)
def threads(cx, metrics, threads, preempt):
    """Steps of several threads, one after the other."""
    together(cx, metrics, threads, preempt)


@case(
    quick={"threads": [2], "preempt": [1]},
    thorough={"threads": [2], "preempt": [2]},
    _max_paths=100000,
)
def counted(cx, threads, preempt):
    """Steps of several threads, counted."""
    together(cx, True, threads, preempt)


def together(cx, metrics, threads, preempt):
    """Steps of several threads, one after the other."""
    env = TelemetryEnvironment(256, 0.0, None) if metrics else None
    log = []

    def state(name, goal):
        def run(_):
            log.append(("run", name))
            return goal

        def enter(prev, _):
            log.append(("enter", name, prev))
            return True

        def leave(new, _):
            log.append(("leave", name, new))
            return True

        return State(name, run, enter, leave)

    names = ["a", "b", "c", "d"]
    states = [state(x, y) for x, y in zip(names, names[1:] + ["d"])]
    machine = StateMachine("m", states, env=env)
    log.clear()
    got = []

    def task():
        res = machine.run({"x": 1})
        got.append((res[0].name, res[1].name))

    cx.tasks(*[task] * threads, preempt=preempt)
    want = []
    for idx in range(threads):
        here, there = names[idx], names[idx + 1]
        want += [
            ("run", here),
            ("leave", here, there),
            ("enter", there, here),
        ]
    cx.check(log == want, "hooks of one step after the other")
    cx.check(machine.current_state == names[threads], "its state")
    cx.check(
        sorted(got) == [(names[i], names[i + 1]) for i in range(threads)],
        "what each step did",
    )
    if env is not None:
        for what in ("iterations", "transitions"):
            num = env.channel_registry.get_id("machine.m." + what)
            cx.check(env.get_value(num) == threads, what)
    cx.check(cx.free_locks(), "no lock is held")
