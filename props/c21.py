"""C21: the time keeper."""

from vtelem.classes.time_entity import TimeEntity
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.synchronous import Daemon
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

YIELD = True

BOUNDS = {
    "quick": "4 operations (tick, scale, attach) in any order, the clock "
    "advancing by any multiple of 1/8 s up to 2^20 s between them, scales "
    "1/4 to 8 (powers of two) and any refused one; 2 threads with 2 "
    "preemptions",
    "thorough": "6 operations, 3 threads, 3 preemptions",
}
OUTSIDE = (
    "clocks that run backwards; scales that aren't powers of two (their "
    "products are rounded), infinite and NaN scales; rounding of times that "
    "aren't multiples of 1/64 s"
)
SCALES = [1.0, 2.0, 0.5, 8.0, 0.25]


class Clock:
    """A clock that advances by any amount between operations."""

    def __init__(self, cx):
        self.cx = cx
        self.now = cx.fix("start", 3, 0, 2**31)
        self.steps = 0
        self.slept = []

    def __call__(self):
        return self.now

    def advance(self):
        """Let time pass."""
        self.steps += 1
        amount = self.cx.fix(f"elapsed{self.steps}", 3, 0, 2**20)
        self.now = self.now + amount
        return amount

    def sleep(self, amount):
        """Recorded only."""
        self.slept.append(amount)


def follower(cx, name, keeper):
    """Something that follows the keeper."""
    what = cx.choice(name, ["entity", "env", "daemon"])
    if what == "entity":
        item = TimeEntity(5.0)
    elif what == "env":
        item = TelemetryEnvironment(256, 7.0, None, app_id_basis=0.5)
    else:
        # attaches itself
        return Daemon(name, lambda: None, 1.0, time_keeper=keeper)
    keeper.add_slave(item)
    return item


OPS = ["tick", "scale", "attach", "bad"]


@case(
    first=OPS,
    scale0=[1.0, 0.25],
    quick={"steps": [4]},
    thorough={"steps": [6]},
    _max_paths=400000,
)
def follows(cx, first, scale0, steps):
    """Time is the scaled elapsed time, everywhere."""
    clock = Clock(cx)
    keeper = TimeKeeper("time", 1.0, scale0, clock, clock.sleep)
    scale = scale0
    want = clock.now
    cx.check(keeper.get_time() == want, "starts at the clock's time")
    followers = []
    seen = want
    pending = 0.0
    for step in range(steps):
        oper = first if step == 0 else cx.choice(f"op{step}", OPS)
        amount = clock.advance()
        pending = pending + amount * scale
        if oper == "tick":
            keeper.iteration()
        elif oper == "scale":
            scale = cx.choice(f"scale{step}", SCALES[:3])
            keeper.scale(scale)
        elif oper == "bad":
            keeper.scale(cx.choice(f"bad{step}", [0.0, -1.0]))
        else:
            followers.append(follower(cx, f"follower{step}", keeper))
            cx.check(
                followers[-1].get_time() == keeper.get_time(),
                "attached with the keeper's time",
            )
        now = keeper.get_time()
        cx.check(now >= seen, "never backwards")
        cx.check(now <= want + pending, "never ahead")
        seen = now
        for item in followers:
            cx.check(item.get_time() == now, "followers agree")
    if followers and cx.bool("moved"):
        # somebody else sets the time of a follower
        followers[-1].set_time(cx.fix("ahead", 3, 0, 2**32))
    keeper.iteration()
    want = want + pending
    cx.check(keeper.get_time() == want, "start plus scaled elapsed time")
    for item in followers:
        cx.check(item.get_time() == want, "and so for followers")


@case()
def scales(cx):
    """Only positive scales are accepted."""
    clock = Clock(cx)
    amount = cx.fix("scale", 3, -(2**10), 2**10)
    ok, keeper = cx.catch(TimeKeeper, "t", 1.0, amount, clock, clock.sleep)
    cx.check(ok == (amount > 0), "at first")
    keeper = TimeKeeper("t", 1.0, 2.0, clock, clock.sleep)
    cx.assume(amount <= 0)
    keeper.scale(amount)
    start = clock.now
    elapsed = clock.advance()
    keeper.iteration()
    cx.check(keeper.get_time() == start + elapsed * 2.0, "keeps its scale")
    keeper.sleep(1.0)
    cx.check(clock.slept == [0.5], "also for sleeping")


@case(scale=SCALES)
def sleeps(cx, scale):
    """Sleeping lasts the scaled duration."""
    clock = Clock(cx)
    keeper = TimeKeeper("t", 1.0, 1.0, clock, clock.sleep)
    amount = cx.fix("amount", 3, 0, 2**20)
    keeper.sleep(amount)
    keeper.scale(scale)
    keeper.sleep(amount)
    cx.check(len(clock.slept) == 2, "sleeps once each")
    cx.check(clock.slept[0] == amount, "unscaled")
    cx.check(clock.slept[1] * scale == amount, "scaled")


@case(scale=[1.0, 2.0])
def stored(cx, scale):
    """Values stored by a follower carry the keeper's time."""
    clock = Clock(cx)
    keeper = TimeKeeper("t", 1.0, scale, clock, clock.sleep)
    env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
    keeper.add_slave(env)
    num = env.add_channel("c", Primitive.UINT8, 1.0, True)
    start = clock.now
    elapsed = clock.advance()
    keeper.iteration()
    want = start + elapsed * scale
    how = cx.choice("how", ["set", "command"])
    if how == "set":
        cx.check(env.set_now(num, 5), "stored")
    else:
        cx.check(env.command_channel("c", 5), "commanded")
    events = env.event_queue.consume()
    cx.check(len(events) == 1, "one event")
    cx.check(events[0][2] == (5, want), "with the keeper's time")


@case(
    other=["tick", "scale", "attach"],
    quick={"preempt": [2], "threads": [2]},
    thorough={"preempt": [3], "threads": [3]},
    _max_paths=100000,
)
def threads(cx, other, preempt, threads):
    """Concurrent ticks, scale changes and attachments."""
    clock = Clock(cx)
    keeper = TimeKeeper("t", 1.0, 1.0, clock, clock.sleep)
    items = [TimeEntity(), TimeEntity()]
    keeper.add_slave(items[0])
    start = clock.now
    elapsed = clock.advance()

    def tick():
        """One iteration."""
        keeper.iteration()

    def second():
        """Something else."""
        if other == "tick":
            keeper.iteration()
        elif other == "scale":
            keeper.scale(2.0)
        else:
            keeper.add_slave(items[1])

    def reader():
        """Times seen by a follower don't go back."""
        one = items[0].get_time()
        two = items[0].get_time()
        cx.check(one <= two, "never backwards for a reader")

    cx.tasks(*[tick, second, reader][:threads], preempt=preempt)
    cx.check(cx.free_locks(), "no lock is held")
    cx.check(keeper.get_time() == start + elapsed, "counted once")
    cx.check(items[0].get_time() == start + elapsed, "follower agrees")
    if other == "attach":
        cx.check(items[1].get_time() == start + elapsed, "the new one too")
