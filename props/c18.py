"""C18: services and their operations."""

from threading import Semaphore
import time

from vtelem.daemon import DaemonBase
from vtelem.enums.daemon import DaemonOperation, DaemonState
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

YIELD = True

BOUNDS = {
    "quick": "3 operations in any order, each direct, by enumerator or by "
    "name, of a service that may end by itself; 2 operations of different "
    "threads, preempted once, of a service in any state",
    "thorough": "4 operations; 2 preemptions",
}
OUTSIDE = (
    "tasks that never end when told to; state "
    "handlers that raise or wait; services whose loops are those of asyncio"
)
BUDGET = {"quick": 250}


class Oops(Exception):
    """What a task raises."""


class Service(DaemonBase):
    """A service with a task that waits until it's stopped."""

    def __init__(self, env=None, log=None):
        self.log = []
        super().__init__("svc", env)
        self.wake = Semaphore(0)
        self.plan = None
        self.runs = 0
        self.active = []
        self.given = []
        self.function["inject_stop"] = self.wake.release
        self.function["state_change"] = self.changed
        self.changes = []

    def changed(self, old, new, _):
        """Note an announcement."""
        self.changes.append((old.name.lower(), new.name.lower(), self.runs))

    def run(self, *args, **kwargs):
        """The task."""
        self.runs += 1
        num = self.runs
        self.active.append(num)
        self.given.append((args, kwargs))
        try:
            while self.get_state() != DaemonState.STOPPING:
                self.wake.acquire()
                plan, self.plan = self.plan, None
                if plan == "raise":
                    raise Oops()
                if plan == "return":
                    return
        finally:
            self.active.remove(num)

    def finish(self, plan):
        """Have the task end by itself."""
        self.plan = plan
        self.wake.release()


OPS = {
    # operation: {state: (state changes, result)}
    "start": {"idle": (["starting", "running"], True)},
    "pause": {"running": (["paused"], True)},
    "unpause": {"paused": (["running"], True)},
    "stop": {"running": (["stopping", "idle"], True)},
    "restart": {
        "running": (["stopping", "idle", "starting", "running"], True)
    },
    "none": {},
    "unknown": {},
}
# what is asked for, but already so
ALREADY = {
    "start": ["starting", "running"],
    "stop": ["stopping", "idle"],
    "pause": ["paused"],
    "unpause": ["idle", "running"],
}


class Model:
    """A service, and what is expected of it."""

    def __init__(self, cx, env=""):
        self.cx = cx
        self.env = None
        if env:
            self.env = TelemetryEnvironment(
                256, 0.0, 1.0 if env == "metrics" else None
            )
        self.service = Service(self.env)
        self.state = "idle"
        self.counts = {
            x: 0
            for x in ("starts", "stops", "pauses", "unpauses", "errors", "count")
        }
        self.runs = []

    def enter(self, changes):
        """State changes."""
        res = []
        for new in changes:
            res.append((self.state, new))
            if new == "starting":
                self.counts["starts"] += 1
                self.counts["count"] = 0
            elif new == "paused":
                self.counts["pauses"] += 1
            elif self.state == "paused" and new == "running":
                self.counts["unpauses"] += 1
            elif new == "idle":
                self.counts["count"] += 1
                if self.state == "stopping":
                    self.counts["stops"] += 1
            self.state = new
        return res

    def expect(self, want):
        """Compare, once everything is at rest."""
        cx, service = self.cx, self.service
        cx.world.idle()
        cx.check(
            [x[:2] for x in service.changes] == want, "announced changes"
        )
        service.changes.clear()
        cx.check(service.get_state_str() == self.state, "state")
        cx.check(
            service.get_state() == DaemonState[self.state.upper()], "state"
        )
        cx.check(
            len(service.active) == (self.state not in ("idle",)), "its task"
        )
        cx.check(service.given == self.runs, "what its task was given")
        if self.env is not None and self.env.has_metric("svc.state"):
            registry = self.env.channel_registry
            for name, count in self.counts.items():
                num = registry.get_id("svc." + name)
                cx.check(self.env.get_value(num) == count, name)
            num = registry.get_id("svc.state")
            cx.check(
                self.env.get_value(num)
                == int(DaemonState[self.state.upper()]),
                "published state",
            )

    def operate(self, oper, how, step):
        """An operation."""
        cx, service = self.cx, self.service
        changes, want = OPS[oper].get(self.state, ([], False))
        if how != "direct" and self.state in ALREADY.get(oper, []):
            changes, want = [], True
        args = (step,) if oper in ("start", "restart") else ()
        kwargs = {"x": step} if args else {}
        if how == "direct":
            if oper in ("none", "unknown"):
                return
            ok, res = cx.catch(getattr(service, oper), *args, **kwargs)
        elif how == "enum":
            if oper == "unknown":
                return
            ok, res = cx.catch(
                service.perform, DaemonOperation[oper.upper()], *args, **kwargs
            )
        else:
            text = oper if step % 2 else oper.upper()
            ok, res = cx.catch(service.perform_str, text, *args, **kwargs)
        cx.check(ok, "an operation has a result")
        cx.check(res == want, "succeeds if its state allows it")
        if "idle" in changes and oper == "stop":
            cx.check(not service.active, "the task ended when stop returns")
        if "starting" in changes:
            self.runs.append((args, kwargs))
        self.expect(self.enter(changes))

    def finish(self, plan):
        """The task ends by itself."""
        if self.state == "idle":
            return
        self.service.finish(plan)
        self.expect(self.enter(["idle"]))

    def close(self):
        """It can be started and stopped."""
        if self.state == "paused":
            self.operate("unpause", "direct", 91)
        if self.state == "running":
            self.operate("stop", "direct", 92)
        self.operate("start", "direct", 93)
        self.operate("stop", "direct", 94)


@case(
    first=["start", "stop", "other"],
    second=["start", "pause", "stop", "raise", "other"],
    env=["metrics"],
    quick={"steps": [3]},
    thorough={"steps": [4]},
    _max_paths=100000,
)
def sequences(cx, first, second, env, steps):
    """Operations, one after the other."""
    model = Model(cx, env)
    every = list(OPS) + ["raise"]
    for step in range(steps):
        options = every
        if step == 0:
            options = [first]
            if first == "other":
                options = [x for x in every if x not in ("start", "stop")]
        elif step == 1:
            options = [second]
            if second == "other":
                options = [
                    x
                    for x in every
                    if x not in ("start", "pause", "stop", "raise")
                ]
        oper = options[0]
        if len(options) > 1:
            oper = cx.choice(f"op{step}", options)
        if oper == "raise":
            model.finish(oper)
        else:
            how = "direct"
            if step == steps - 1:
                how = cx.choice(f"how{step}", ["direct", "enum", "text"])
            model.operate(oper, how, step)
    model.close()


@case(_max_paths=100000)
def contexts(cx):
    """Operations that are undone by themselves."""
    model = Model(cx, "bare")
    service = model.service
    before = cx.choice("before", ["idle", "running", "paused"])
    if before != "idle":
        model.operate("start", "direct", 1)
    if before == "paused":
        model.operate("pause", "direct", 2)
    what = cx.choice("what", ["booted", "optional", "serve", "paused"])
    fails = cx.choice("fails", [False, True])
    inside = cx.choice("inside", ["nothing", "pause", "stop", "wait", "end"])
    seen = []

    def body():
        if inside == "wait":
            cx.world.idle()
        seen.append(service.get_state_str())
        if inside == "pause":
            seen.append(service.pause())
        elif inside == "stop":
            if what == "paused":
                seen.append(service.unpause())
            seen.append(service.stop())
        elif inside == "end":
            service.finish("return")
            cx.world.idle()
        if fails:
            raise Oops()

    def main(daemon, *args, **kwargs):
        seen.append((daemon is service, args, kwargs))
        body()
        return 7

    def use():
        if what == "serve":
            return service.serve(5, main_thread=main, x=6)
        if what == "paused":
            with service.paused():
                body()
        else:
            with service.booted(5, require_stop=what == "booted", x=6):
                body()
        return 7

    ok, res = cx.catch(use)
    if what == "paused":
        possible = before == "running"
        changes = ["paused"]
        undo = {
            "stop": ["running", "stopping", "idle"],
            "end": ["idle"],
        }.get(inside, ["running"])
        undone = inside in ("nothing", "pause", "wait")
    else:
        possible = before == "idle"
        changes = ["starting", "running"]
        undo = {
            "pause": ["paused"],
            "end": ["idle"],
        }.get(inside, ["stopping", "idle"])
        undone = inside in ("nothing", "wait") or what == "optional"
        if possible:
            model.runs.append(((5,), {"x": 6}))
    if not possible:
        cx.check(not ok, "fails unless its state allows it")
        cx.check(not seen, "its body doesn't run")
        model.expect([])
    else:
        cx.check(ok == (undone and not fails), "fails if something failed")
        if ok:
            cx.check(res == 7, "its result")
        want = [(True, (5,), {"x": 6})] if what == "serve" else []
        want += ["paused" if what == "paused" else "running"]
        if inside == "pause":
            want.append(what != "paused")
        elif inside == "stop":
            want += [True] * (1 + (what == "paused"))
        cx.check(seen == want, "its body runs once, when it's possible")
        model.expect(model.enter(changes + undo))
    model.close()


@case(
    pair=[
        "idle start start",
        "idle start stop",
        "idle start pause",
        "idle start restart",
        "running stop start",
        "running stop stop",
        "running stop restart",
        "running stop pause",
        "running stop end",
        "running restart restart",
        "running restart start",
        "running restart end",
        "running pause pause",
        "running pause end",
        "running start end",
        "paused unpause unpause",
        "paused unpause stop",
        "paused unpause pause",
        "paused unpause end",
    ],
    quick={"preempt": [1]},
    thorough={"preempt": [2]},
    _max_paths=100000,
)
def concurrent(cx, pair, preempt):
    """Operations of several threads."""
    model = Model(cx)
    service = model.service
    before, *opers = pair.split()
    one = opers[1]
    if before != "idle":
        model.operate("start", "direct", 1)
    if before == "paused":
        model.operate("pause", "direct", 2)
    chain = service.changes
    stopped = []
    results = []

    def task(oper):
        if oper == "end":
            service.finish("raise")
            return
        begin = len(chain)
        res = getattr(service, oper)()
        results.append((oper, begin, len(chain), res))
        if oper == "stop" and res:
            stopped.append((begin, len(chain), list(service.active)))

    cx.tasks(lambda: task(opers[0]), lambda: task(one), preempt=preempt)
    cx.world.idle()
    states = [before]
    for old, new, _ in chain:
        cx.check(old == states[-1], "changes are announced in their order")
        states.append(new)
        cx.check(
            (old, new)
            in (
                ("idle", "starting"),
                ("starting", "running"),
                ("running", "paused"),
                ("paused", "running"),
                ("running", "stopping"),
                ("stopping", "idle"),
            )
            or new == "idle"
            and one == "end",
            "a change that is possible",
        )
    cx.check(states[-1] == service.get_state_str(), "state as announced")
    cx.check(service.get_state_str() not in ("starting", "stopping"), "settled")
    cx.check(
        len(service.active) == (states[-1] != "idle"), "one task, if any"
    )
    enters = {"start": "starting", "pause": "paused", "stop": "stopping"}
    needs = {
        "start": "idle",
        "pause": "running",
        "unpause": "paused",
        "stop": "running",
        "restart": "running",
    }
    pairs = list(zip(states, states[1:]))
    for oper, new in enters.items():
        wanted = len([x for x in results if x[0] == oper and x[3]])
        extra = len([x for x in results if x[0] == "restart" and x[3]])
        extra *= oper != "pause"
        failed = [x for x in results if x[0] == "restart" and not x[3]]
        count = len([x for x in pairs if x[1] == new])
        cx.check(
            wanted + extra <= count <= wanted + extra + len(failed),
            "takes effect if it reports success, and only then",
        )
    count = len([x for x in results if x[0] == "unpause" and x[3]])
    cx.check(
        len([x for x in pairs if x == ("paused", "running")]) == count,
        "takes effect if it reports success, and only then",
    )
    for oper, begin, end, res in results:
        seen = states[begin : end + 1]
        if res:
            cx.check(needs[oper] in seen, "succeeds only if its state allows it")
        elif oper != "restart":
            cx.check(
                any(x != needs[oper] for x in seen),
                "fails only if its state doesn't allow it",
            )
    for begin, end, active in stopped:
        runs = [x[2] for x in chain[begin:end] if x[1] == "stopping"]
        if len(runs) == 1:
            cx.check(runs[0] not in active, "its task ended")
    service.changes.clear()
    service.plan = None
    model.state = states[-1]
    model.runs = list(service.given)
    if model.state == "paused":
        model.operate("unpause", "direct", 3)
    if model.state == "running":
        model.operate("stop", "direct", 4)
    model.operate("start", "direct", 5)
    model.operate("stop", "direct", 6)


@case(free=[True, False])
def again(cx, free):
    """A service that's used again and again."""
    env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    service = Service(env)
    rounds = 3
    for num in range(rounds):
        if num and cx.bool(f"ends{num}"):
            cx.check(service.start(), "starts")
            service.started.wait()
            cx.check(service.get_state_str() == "running", "started: it runs")
            service.finish("return")
            cx.world.idle()
            cx.check(service.get_state_str() == "idle", "it ended")
        with service.booted():
            cx.check(service.get_state_str() == "running", "it runs")
            if not free:
                cx.world.idle()
        cx.check(service.get_state_str() == "idle", "it's stopped")
        cx.check(not service.active, "its task has ended")
    cx.check(env.get_metric("svc.stops") == rounds, "every stop is counted")
    cx.check(env.get_metric("svc.errors") == 0, "none failed")


@case()
def late(cx):
    """A task that ends later than a stop waits for."""
    env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    service = DaemonBase("svc", env)
    limit = cx.choice("limit", [1, 3])
    after = cx.choice("after", [0.0, 0.5, 2.0, 5.0])
    wake = Semaphore(0)

    def task(*_, **__):
        wake.acquire()
        time.sleep(after)

    service.run = task
    service.function["inject_stop"] = wake.release
    for num in range(2):
        cx.check(service.start(), "starts")
        service.started.wait()
        ended = after < limit
        cx.check(service.stop(limit), "it was told to stop")
        name = "idle" if ended else "stopping"
        cx.check(service.get_state_str() == name, "its state")
        cx.check(env.get_metric("svc.stops") == (num + 1) * ended, "stops")
        cx.check(
            env.get_metric("svc.errors") == (num + 1) * (not ended), "errors"
        )
        if not ended:
            cx.check(not service.start(), "it can't start before it ended")
            cx.check(not service.stop(limit), "it's told once")
        cx.world.idle(cx.world.now + 10.0)
        cx.check(service.get_state_str() == "idle", "it ended")
        cx.check(env.get_metric("svc.starts") == num + 1, "starts")
