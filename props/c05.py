"""C05: emission rates."""

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.enums.primitive import Primitive

from props.frames import drain
from props.util import ALL, value
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "one channel: 5 dispatches, a rate change and a store before "
    "any of them; 3 channels: 3 dispatches; every period, start and "
    "non-decreasing dispatch time that is a multiple of 1/1024 s up to "
    "2^30 s, and any finite double for one channel and 2 dispatches",
    "thorough": "7 dispatches of one channel, 4 of 3 channels",
}
OUTSIDE = "longer histories; NaN or infinite times and rates"


def time_of(cx, name, low=0):
    """A duration."""
    return cx.fix(name, 10, low, 2**30)


@case(
    quick={"steps": [5], "change": [0, 2, 4]},
    thorough={"steps": [5, 7], "change": [0, 1, 2, 3, 4]},
)
def one(cx, steps, change):
    """Emissions of one channel, with a rate change."""
    rate = time_of(cx, "rate")
    chan = Channel("c", P.INT32, rate)
    now = 0.0
    last = 0.0
    current = 0
    for step in range(steps):
        now = now + time_of(cx, f"elapsed{step}")
        if step == change:
            rate = time_of(cx, "newrate")
            chan.set_rate(rate)
        val = cx.int(f"value{step}", -(2**31), 2**31 - 1)
        cx.check(chan.set(val), "storing")
        current = val
        got = chan.emit(now)
        due = now - last >= rate
        if due:
            last = now
            cx.check(got is not None, "emitted when due")
            cx.check(got == current, "current value")
        else:
            cx.check(got is None, "not emitted before")
        cx.check(chan.get() == current, "value stays")


@case(
    quick={"count": [3], "steps": [2]},
    thorough={"count": [3], "steps": [2, 3]},
)
def environment(cx, count, steps):
    """Channels of an environment don't influence each other's rate."""
    env = ChannelEnvironment(256)
    rates = [time_of(cx, f"rate{i}") for i in range(count)]
    chans = [
        env.add_channel(f"c{i}", P.UINT8, rates[i]) for i in range(count)
    ]
    other = cx.pick("changed", count)
    now = 0.0
    last = [0.0] * count
    for step in range(steps):
        now = now + time_of(cx, f"elapsed{step}")
        if step == 1:
            rates[other] = time_of(cx, "newrate")
            env.set_channel_rate(chans[other], rates[other])
        due = []
        for idx in range(count):
            val = cx.int(f"value{step}.{idx}", 0, 255)
            cx.check(env.set_now(chans[idx], val), "storing")
            if now - last[idx] >= rates[idx]:
                due.append((chans[idx], val))
                last[idx] = now
        total = env.dispatch(now)
        frames = drain(env.frame_queue)
        cx.check(total == len(frames), "frames reported")
        cx.check(len(frames) == (1 if due else 0), "one frame when due")
        got = []
        for frame in frames:
            parsed = env.decode_frame(*frame.raw)
            got += [(x["id"], x["value"]) for x in parsed.body["channels"]]
        cx.check(len(got) == len(due), "exactly the channels due")
        for left, right in zip(got, due):
            cx.check(left[0] == right[0], "channel emitted")
            cx.check(left[1] == right[1], "value emitted")


@case(prim=ALL)
def falsy(cx, prim):
    """A due channel is emitted whatever its value, also zero or false."""
    env = ChannelEnvironment(64)
    num = env.add_channel("c", prim, time_of(cx, "rate"))
    val = value(cx, "value", prim, True)
    cx.check(env.set_now(num, val), "storing")
    now = time_of(cx, "now")
    chan = env.channel_registry.get_item(num)
    due = now >= chan.rate
    result = env.dispatch_data(now)
    if due:
        cx.check(result == (1, 1), "emitted")
    else:
        cx.check(result == (0, 0), "not emitted")


@case(steps=[2])
def doubles(cx, steps):
    """Any finite times; what is due is decided in double arithmetic."""
    rate = cx.float("rate", finite=True)
    cx.assume(rate >= 0.0)
    chan = Channel("c", P.BOOLEAN, rate)
    last = 0.0
    now = 0.0
    for step in range(steps):
        new = cx.float(f"time{step}", finite=True)
        cx.assume(new >= now)
        now = new
        got = chan.emit(now)
        # either way to compute it is fine where rounding makes them differ
        late = cx.all([now >= last + rate, now - last >= rate])
        early = cx.all([now < last + rate, now - last < rate])
        if got is None:
            cx.check(cx.neg(late), "emitted when due")
        else:
            cx.check(cx.neg(early), "not emitted before")
            last = now
        prim = TypePrimitive(P.BOOLEAN)
        cx.check(chan.get() == prim.get(), "value stays")


@case(order=[0, 1])
def same_time(cx, order):
    """Dispatching twice at one time emits a channel with a period once."""
    rate = cx.fix("rate", 10, 0, 2**30)
    cx.assume(rate > 0)
    now = cx.fix("now", 10, 0, 2**30)
    env = ChannelEnvironment(64)
    num = env.add_channel("c", P.UINT16, rate)
    if order:
        env.set_channel_rate(num, rate)
    first = env.dispatch_data(now)
    again = env.dispatch_data(now)
    cx.check(again == (0, 0), "not again at the same time")
    if now >= rate:
        cx.check(first == (1, 1), "emitted once")
    later = env.dispatch_data(now + rate)
    cx.check(later == (1, 1), "again after a period")
