"""C04: change tracking."""

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.classes.event_queue import EventQueue
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from props.util import ALL, SPEC, kind, value
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "every type: 2 stores or commands of any value, also outside "
    "the type's range; 3 operations (store, command, increment, dispatch, "
    "on a tracked, an untracked and a non-commandable channel) in any order",
    "thorough": "4 operations in any order, 3 stores of every type",
}
OUTSIDE = "more operations; more than 256 queued events; NaN"


def loose(cx, name, prim):
    """Any value of the type's kind, in or out of its range."""
    what = kind(prim)
    if what == "bool":
        return cx.bool(name)
    if what == "int":
        _, _, low, high, _ = SPEC[prim.name]
        return cx.int(name, low - 2, high + 2)
    return cx.fix(name, 3, -(2**17), 2**17)


def fitting(cx, prim, val):
    """Whether the type can carry it."""
    if kind(prim) != "int":
        return True
    _, _, low, high, _ = SPEC[prim.name]
    return cx.all([val >= low, val <= high])


class Model:
    """What a channel is expected to do."""

    def __init__(self, prim, name, tracked, commandable=True):
        self.prim = prim
        self.name = name
        self.tracked = tracked
        self.commandable = commandable
        self.value = False if prim is P.BOOLEAN else 0
        self.time = 0.0

    def store(self, cx, val, time, events):
        """An attempted store; whether it is accepted."""
        if not fitting(cx, self.prim, val):
            return False
        if self.tracked and val != self.value:
            events.append((self.name, (self.value, self.time), (val, time)))
        self.value, self.time = val, time
        return True


def compare(cx, got, want):
    """Event lists are equal."""
    cx.check(len(got) == len(want), "number of events")
    for one, two in zip(got, want):
        cx.check(one[0] == two[0], "channel")
        for left, right, label in zip(one[1:], two[1:], ("before", "after")):
            cx.check(left[0] == right[0], "value " + label)
            cx.check(left[1] == right[1], "time " + label)


@case(prim=ALL, quick={"steps": [2]}, thorough={"steps": [2, 3]})
def stores(cx, prim, steps):
    """Stores of any value on one channel of each type."""
    queue = EventQueue()
    chan = Channel("c", prim, 1.0, queue)
    model = Model(prim, "c", True)
    events = []
    for step in range(steps):
        val = loose(cx, f"value{step}", prim)
        time = cx.fix(f"time{step}", 3, 0, 2**40)
        want = model.store(cx, val, time, events)
        got = (chan.set if step % 2 == 0 else chan.command)(val, time)
        cx.check(got == want, "accepted or not")
        cx.check(chan.get() == model.value, "value held")
    compare(cx, queue.consume(), events)
    cx.check(queue.consume() == [], "each event once")


@case(prim=ALL)
def floats(cx, prim):
    """Any value that fits, stored over any other."""
    queue = EventQueue()
    chan = Channel("c", prim, 1.0, queue)
    one = value(cx, "one", prim)
    two = value(cx, "two", prim)
    cx.check(chan.set(one, 1.0), "first store")
    first = queue.consume()
    cx.check(chan.set(two, 2.0), "second store")
    second = queue.consume()
    default = False if prim is P.BOOLEAN else 0
    compare(
        cx, first, [("c", (default, 0.0), (one, 1.0))] if one != default else []
    )
    compare(cx, second, [("c", (one, 1.0), (two, 2.0))] if two != one else [])


OPS = ["store", "command", "increment", "dispatch"]
FIRST = [(i, x) for i in range(3) for x in OPS[:3]]


@case(
    first=FIRST,
    quick={"steps": [3], "prim": [P.INT8]},
    thorough={"steps": [3, 4], "prim": [P.INT8, P.UINT16]},
    _max_paths=200000,
)
def operations(cx, first, steps, prim):
    """Any operations on three channels of an environment."""
    env = TelemetryEnvironment(256)
    models = []
    nums = []
    specs = [("tracked", True, True), ("plain", False, True), ("ro", True, False)]
    for name, tracked, commandable in specs:
        models.append(Model(prim, name, tracked, commandable))
        nums.append(
            env.add_channel(name, prim, 1.0, tracked, None, commandable)
        )
    events = []
    now = 0.0
    for step in range(steps):
        if step == 0:
            which, kind_of = first
        else:
            which = cx.pick(f"which{step}", 3)
            kind_of = cx.choice(f"op{step}", OPS)
            if kind_of == "dispatch":
                cx.assume(which == 0)
        model, num = models[which], nums[which]
        now = now + 1.5
        env.set_time(now)
        val = cx.int(f"value{step}", -130, 130)
        if kind_of == "store":
            want = model.store(cx, val, now, events)
            cx.check(env.set_now(num, val) == want, "store accepted or not")
        elif kind_of == "command":
            want = model.commandable and model.store(cx, val, now, events)
            got = (
                env.command_channel(model.name, val)
                if step % 2
                else env.command_channel_id(num, val)
            )
            cx.check(got == want, "command accepted or not")
        elif kind_of == "increment":
            want = model.commandable and model.store(
                cx, model.value + val, now, events
            )
            chan = env.channel_registry.get_item(num)
            got = chan.command(val, now, True)
            cx.check(got == want, "increment accepted or not")
        elif step % 2:
            # data doesn't touch events
            env.dispatch_data(now)
        else:
            # events are handed out once
            compare(cx, env.event_queue.consume(), events)
            events = []
    for model, num in zip(models, nums):
        cx.check(env.get_value(num) == model.value, "value held")
    compare(cx, env.event_queue.consume(), events)


@case(initial=[True, False], count=[2])
def at_start(cx, initial, count):
    """Channels' initial values, and values set before dispatches."""
    env = ChannelEnvironment(256)
    val = cx.int("initial", 0, 255)
    time = cx.fix("time", 3, 0, 2**20)
    nums = []
    events = []
    models = []
    for idx in range(count):
        model = Model(P.UINT8, f"c{idx}", idx == 0)
        models.append(model)
        if initial:
            model.store(cx, val, time, events)
        nums.append(
            env.add_channel(
                f"c{idx}",
                P.UINT8,
                1.0,
                idx == 0,
                (val, time) if initial else None,
            )
        )
    new = cx.int("new", 0, 255)
    env.set_time(3.0)
    for idx in range(count):
        models[idx].store(cx, new, 3.0, events)
        cx.check(env.set_now(nums[idx], new), "store")
    compare(cx, env.event_queue.consume(), events)


@case(kind_of=["nan", "type"])
def refused(cx, kind_of):
    """Values of another kind queue nothing."""
    queue = EventQueue()
    chan = Channel("c", P.UINT8, 1.0, queue)
    cx.check(chan.set(cx.int("first", 1, 255), 1.0), "store")
    queue.consume()
    before = chan.get()
    bad = (
        cx.float("bad")
        if kind_of == "nan"
        else cx.choice("bad", ["1", None, b"1", [1], 1.0])
    )
    cx.check(not chan.set(bad, 2.0), "refused")
    cx.check(not chan.command(bad, 2.0), "command refused")
    cx.check(chan.get() == before, "value stays")
    compare(cx, queue.consume(), [])


@case(tracked=[True, False])
def duplicates(cx, tracked):
    """A refused channel queues nothing and changes nothing."""
    env = ChannelEnvironment(256)
    num = env.add_channel("c", P.UINT8, 1.0, tracked)
    val = cx.int("initial", -1, 256)
    time = cx.fix("time", 3, 0, 2**20)
    name = cx.choice("name", ["c", "d"])
    good = name == "d" and 0 <= val <= 255
    ok, _ = cx.catch(env.add_channel, name, P.UINT8, 1.0, True, (val, time))
    cx.check(ok == good, "refused or not")
    events = []
    if good and val != 0:
        events.append(("d", (0, 0.0), (val, time)))
    compare(cx, env.event_queue.consume(), events)
    cx.check(env.get_value(num) == 0, "the other one is left alone")
