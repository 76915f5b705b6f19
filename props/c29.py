"""C29: periodic services."""

from vtelem.classes.time_keeper import TimeKeeper
from vtelem.classes.time_entity import TimeEntity
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

BOUNDS = {
    "both": "any rate up to 2 s and any duration of the task up to 4 s, of any "
    "multiple of 1/8 s; any multiple of 1/8 s that sleeping takes too long",
    "quick": "3 points (in the task or asleep) at which the service is "
    "paused, unpaused, stopped or gets another rate",
    "thorough": "4 points",
}
OUTSIDE = (
    "what floats round; services without a time keeper (their time "
    "stands still unless it's set: every iteration is followed by a sleep)"
)


class Keeper:
    """A time that passes when somebody sleeps or works."""

    def __init__(self, cx, start):
        self.cx = cx
        self.now = start
        self.slaves = []
        self.sleeps = []
        self.hook = None
        self.late = False

    def add_slave(self, slave):
        """Manage the time of something."""
        slave.set_time(self.now)
        self.slaves.append(slave)

    def get_time(self):
        """The time of its slaves."""
        return self.now

    def time_function(self):
        """The time."""
        return self.now

    def advance(self, amount):
        """Time passes."""
        self.now = self.now + amount
        for slave in self.slaves:
            slave.set_time(self.now)

    def sleep(self, amount):
        """Sleep."""
        self.sleeps.append(amount)
        if len(self.sleeps) > 40:
            self.cx.fail("goes on after a stop")
        if self.late:
            amount = amount + self.cx.fix("late", 3, 0, 1)
        self.advance(amount)
        if self.hook is not None:
            self.hook("sleep")


class Oops(Exception):
    """An error of the task."""


class Bench:
    """A service whose task takes any time, and what it should do."""

    def __init__(self, cx, points, default=False, metrics=True):
        self.cx = cx
        self.keeper = Keeper(cx, 16.0)
        self.env = (
            TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
            if metrics
            else None
        )
        self.points = points
        self.log = []
        self.over = []
        self.changes = []
        self.inits = 0
        self.rate = cx.fix("rate", 3, 0.125, 2)
        self.durations = []
        self.ops = []
        self.svc = Daemon(
            "svc",
            self.task,
            self.rate,
            None if default else self.overrun,
            self.changed,
            self.env,
            self.keeper,
            self.init,
        )
        self.keeper.hook = self.point

    def init(self, *args, **kwargs):
        """The service starts."""
        self.inits += 1
        self.cx.check(args == (1,) and kwargs == {"a": 2}, "its arguments")
        self.log.append("init")

    def overrun(self, start, end, rate, data):
        """An overrun is told."""
        self.over.append((start, end, rate))
        self.log.append("overrun")

    def changed(self, old, new, _):
        """The state changes."""
        self.changes.append((old, new))

    def task(self, *args, **kwargs):
        """The task."""
        cx = self.cx
        cx.check(args == (1,) and kwargs == {"a": 2}, "its arguments")
        cx.check(
            self.svc.get_state() in (DaemonState.RUNNING,), "only while running"
        )
        self.log.append(("task", self.keeper.now))
        if len(self.durations) > 12:
            cx.fail("goes on after a stop")
        num = cx.fix("duration", 3, 0, 4)
        self.durations.append(num)
        self.keeper.advance(num)
        self.point("task")

    def point(self, where):
        """Something is done with the service."""
        cx = self.cx
        if where == "sleep":
            self.log.append(("sleep", self.keeper.sleeps[-1]))
        self.points -= 1
        svc = self.svc
        if self.points < 0:
            # it comes to an end
            if svc.get_state() == DaemonState.PAUSED:
                svc.unpause()
                self.log.append("unpaused")
            self.log.append("stopped")
            svc.begin_stop()
            return
        oper = cx.choice("oper", ["", "pause", "unpause", "stop", "rate"])
        if oper == "pause" and svc.pause():
            self.log.append("paused")
        elif oper == "unpause" and svc.unpause():
            self.log.append("unpaused")
        elif oper == "stop" and svc.begin_stop():
            self.log.append("stopped")
        elif oper == "rate":
            new = cx.fix("new_rate", 3, -1, 2)
            svc.set_rate(new)
            if new > 0:
                self.log.append(("rate", new))

    def verify(self, rate):
        """Compare what happened with what should happen."""
        cx = self.cx
        log = list(self.log)
        over = list(self.over)
        cx.check(bool(log) and log.pop(0) == "init", "prepared first")
        paused = stopped = False
        tasks = overruns = 0
        total = last = 0.0
        now = 16.0

        def events():
            """Operations at this point."""
            nonlocal paused, stopped, rate
            while log and (
                log[0] in ("paused", "unpaused", "stopped")
                or log[0][0] == "rate"
            ):
                item = log.pop(0)
                if item == "paused":
                    paused = True
                elif item == "unpaused":
                    paused = False
                elif item == "stopped":
                    stopped = True
                else:
                    rate = item[1]

        while not stopped:
            curr = rate
            if paused:
                item = log.pop(0)
                cx.check(item[0] == "sleep", "nothing runs while paused")
                cx.check(item[1] == curr, "sleeps a period")
                now = now + curr
                events()
                continue
            item = log.pop(0)
            cx.check(item[0] == "task", "the task runs")
            cx.check(item[1] == now, "as soon as it should")
            last = self.durations[tasks]
            tasks += 1
            start = now
            now = now + last
            total = total + last
            events()
            if curr - last > 0:
                cx.reach("sleeps")
                item = log.pop(0)
                cx.check(item[0] == "sleep", "it waits for the next period")
                cx.check(item[1] == curr - last, "what's left of the period")
                now = start + curr
                events()
            else:
                cx.reach("overruns")
                overruns += 1
                if self.svc.function["overrun"] == self.overrun:
                    cx.check(
                        bool(log) and log.pop(0) == "overrun", "overrun told"
                    )
                    cx.check(
                        over.pop(0) == (start, now, curr), "overrun details"
                    )
        cx.check(not log and not over, "nothing after the stop")
        cx.check(tasks == len(self.durations), "every call")
        if self.env is not None:

            def metric(name):
                return self.env.get_metric("svc." + name)

            cx.check(metric("overruns") == overruns, "overruns counted")
            cx.check(metric("uptime") == total, "time counted")
            cx.check(metric("cycle_time") == last, "last duration")
            cx.check(metric("starts") == 1, "starts counted")
            cx.check(metric("count") == 1, "runs counted")
            cx.check(
                self.env.get_enum_metric("svc.state") == "idle",
                "state published",
            )
        cx.check(self.svc.get_rate() == rate, "its rate")
        cx.check(self.svc.get_state() == DaemonState.IDLE, "ends")


@case(
    default=[True, False],
    quick={"points": [3]},
    thorough={"points": [4]},
    _max_paths=50000,
)
def runs(cx, default, points):
    """Anything is done at any point."""
    bench = Bench(cx, points, default, metrics=not default)
    rate = bench.rate
    cx.check(bench.svc.start(1, a=2), "starts")
    cx.world.idle()
    bench.verify(rate)
    cx.check(bench.inits == 1, "prepared once")


@case(default=[True, False])
def metrics(cx, default):
    """What's counted."""
    bench = Bench(cx, 2, default)
    rate = bench.rate
    cx.check(bench.svc.start(1, a=2), "starts")
    cx.world.idle()
    bench.verify(rate)


@case(when=["init", "first", "second"])
def errors(cx, when):
    """The task raises: the service ends, and can be started again."""
    keeper = Keeper(cx, 16.0)
    env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    calls = []

    def init():
        calls.append("init")
        if when == "init" and len(calls) == 1:
            raise Oops()

    def task():
        calls.append("task")
        keeper.advance(cx.fix("duration", 3, 0, 1))
        if calls == ["init", "task"] and when == "first":
            raise Oops()
        if calls == ["init", "task", "task"] and when == "second":
            raise Oops()
        if calls.count("init") == 2 and calls[-2] == "task":
            svc.begin_stop()

    svc = Daemon("svc", task, 0.5, None, None, env, keeper, init)
    cx.check(svc.start(), "starts")
    cx.world.idle()
    first = {"init": ["init"], "first": ["init", "task"]}.get(
        when, ["init", "task", "task"]
    )
    cx.check(calls == first, "ends with the error")
    cx.check(svc.get_state() == DaemonState.IDLE, "ends")
    cx.check(env.get_enum_metric("svc.state") == "idle", "state published")
    cx.check(env.get_metric("svc.count") == 1, "runs counted")
    cx.check(svc.start(), "starts again")
    cx.world.idle()
    cx.check(calls == first + ["init", "task", "task"], "runs again")
    cx.check(env.get_metric("svc.count") == 1, "runs counted")
    cx.check(env.get_metric("svc.starts") == 2, "starts counted")


@case(scalar=[0.5, 1.0, 2.0, 8.0])
def keeps(cx, scalar):
    """A time keeper iterates at its rate."""
    start = cx.fix("start", 3, 0, 2**20)
    rate = cx.fix("rate", 3, 0.125, 2)
    clock = [start]
    sleeps = []
    seen = []

    def time_fn():
        return clock[0]

    def sleep_fn(amount):
        sleeps.append(amount)
        late = cx.fix("late", 3, 0, 1)
        clock[0] = clock[0] + amount + late
        seen.append((late, slave.get_time()))
        if len(sleeps) == 3:
            keeper.begin_stop()
        if len(sleeps) > 9:
            cx.fail("goes on after a stop")

    keeper = TimeKeeper("time", rate, scalar, time_fn, sleep_fn)
    over = []
    keeper.function["overrun"] = lambda *_: over.append(1)
    slave = TimeEntity()
    keeper.add_slave(slave)
    cx.check(keeper.start(), "starts")
    cx.world.idle()
    cx.check(len(sleeps) == 3, "ends")
    want = start
    for num, (late, time) in enumerate(seen):
        cx.check(sleeps[num] == rate, "a period")
        cx.check(time == want, "time advances every period")
        want = want + (rate + late) * scalar
    cx.check(not over, "no overruns")
    cx.check(
        keeper.function["metrics_data"]["overruns"] == 0, "no overruns"
    )


@case(
    quick={"num": [3]},
    thorough={"num": [5]},
)
def telemetry(cx, num):
    """Telemetry is dispatched at the rate of its service."""
    keeper = Keeper(cx, 1000.0)
    rate = cx.fix("rate", 3, 0.125, 2)
    daemon = TelemetryDaemon(
        "telem", 256, rate, keeper, None, app_id_basis=0.5
    )
    chan = daemon.add_channel("a", Primitive.UINT8, 0.0)
    count = []

    def point(_):
        count.append(1)
        if len(count) == num:
            daemon.begin_stop()

    keeper.hook = point
    daemon.set_now(chan, 7)
    cx.check(daemon.start(), "starts")
    cx.world.idle()
    cx.check(daemon.get_state() == DaemonState.IDLE, "ends")
    for idx in range(num):
        frame = daemon.frame_queue.get(False)
        time = 1000.0 + rate * idx
        data = bytes(frame.raw[0][3:11])
        cx.check(
            int.from_bytes(data, "big") == (time * 1000), "a frame per period"
        )
        cx.check(keeper.sleeps[idx] == rate, "a period")
    cx.check(daemon.frame_queue.empty(), "a frame per period")
