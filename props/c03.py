"""C03: events arrive complete, in order and unchanged."""

from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import FrameType

from props.frames import CRC, HEAD, drain, event_size, same
from props.util import ALL, value
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "every type with 2 events; 3 events of channels of different "
    "types at every MTU from the largest event up to all; every value, "
    "every time that is a multiple of 1/8 s below 2^41 s; 2 dispatches",
    "thorough": "5 events, 3 dispatches, more mixes",
}
OUTSIDE = "more events than the bound; times that aren't multiples of 1/8 s"
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]


def stamp(time):
    """The integer for a time."""
    return int(time * 8) * 125


def check_events(cx, env, frames, mtu, expect, now, crc=True):
    """Frames decode to exactly the expected events."""
    got = []
    for frame in frames:
        data, size = frame.raw
        cx.check(size <= mtu, "size")
        parsed = env.decode_frame(data, size, env.app_id)
        cx.check(parsed is not None, "decodes")
        cx.check(parsed.header.type == FrameType.EVENT, "frame type")
        cx.check(parsed.header.app_id == env.app_id.get(), "application id")
        cx.check(parsed.header.timestamp == stamp(now), "frame timestamp")
        events = parsed.body["events"]
        cx.check(len(events) > 0, "no empty frame")
        cx.check(parsed.header.size == len(events), "event count")
        cx.check((parsed.footer.crc is not None) == crc, "footer")
        got += events
    cx.check(len(got) == len(expect), "number of events delivered")
    for one, (num, prim, prev, curr) in zip(got, expect):
        cx.check(one["id"] == num, "channel of an event")
        same(cx, prim, one["previous"]["value"], prev[0], "previous value")
        cx.check(one["previous"]["time"] == stamp(prev[1]), "previous time")
        same(cx, prim, one["current"]["value"], curr[0], "new value")
        cx.check(one["current"]["time"] == stamp(curr[1]), "new time")


class Store:
    """Channels of an environment and the events they should give."""

    def __init__(self, cx, env, prims, top=2**41):
        self.cx = cx
        self.env = env
        self.prims = prims
        self.top = top
        self.chans = [
            env.add_channel(f"c{i}", x, 2.0**45, True)
            for i, x in enumerate(prims)
        ]
        self.last = [(type_default(x), 0.0) for x in prims]
        self.expect = []

    def change(self, idx, name):
        """Store a different value; one more expected event."""
        cx = self.cx
        prim = self.prims[idx]
        time = cx.fix("t" + name, 3, 0, self.top)
        val = value(cx, "v" + name, prim, True)
        cx.assume(val != self.last[idx][0])
        self.env.set_time(time)
        cx.check(self.env.set_now(self.chans[idx], val), "storing")
        new = (val, time)
        self.expect.append((self.chans[idx], prim, self.last[idx], new))
        self.last[idx] = new

    def take(self):
        """The expected events so far."""
        out = self.expect
        self.expect = []
        return out


def type_default(prim):
    """What a channel starts with."""
    return False if prim is P.BOOLEAN else 0


@case(prim=ALL, crc=[True, False])
def single(cx, prim, crc):
    """One channel of each type, changed twice."""
    env = ChannelEnvironment(128, use_crc=crc)
    store = Store(cx, env, [prim])
    store.change(0, "0")
    store.change(0, "1")
    now = cx.fix("now", 3, 0, 2**41)
    result = env.dispatch_events(now)
    frames = drain(env.frame_queue)
    cx.check(result == (len(frames), 2), "frames and events reported")
    check_events(cx, env, frames, 128, store.take(), now, crc)


MIXES = {
    "narrow": [P.UINT8, P.BOOLEAN],
    "mixed": [P.INT16, P.DOUBLE, P.UINT8],
    "wide": [P.INT64, P.FLOAT, P.INT8],
}


@case(
    quick={"mix": ["narrow", "mixed"], "count": [3]},
    thorough={"mix": list(MIXES), "count": [3, 5]},
)
def every_mtu(cx, mix, count):
    """Changes of several channels, at every number per frame."""
    prims = MIXES[mix]
    sizes = [event_size(prims[i % len(prims)]) for i in range(count)]
    spare = cx.pick("spare", sum(sizes) - max(sizes) + 2)
    mtu = HEAD + CRC + max(sizes) + spare
    env = ChannelEnvironment(mtu)
    store = Store(cx, env, prims, 2**20)
    for idx in range(count):
        store.change(idx % len(prims), str(idx))
    now = cx.fix("now", 3, 0, 2**20)
    env.dispatch_events(now)
    check_events(cx, env, drain(env.frame_queue), mtu, store.take(), now)


@case(
    quick={"mix": ["mixed"], "steps": [2], "count": [2]},
    thorough={"mix": list(MIXES), "steps": [2, 3], "count": [2, 3]},
)
def history(cx, mix, steps, count):
    """Any channels change before each dispatch, data goes along."""
    prims = MIXES[mix]
    mtu = HEAD + CRC + max([event_size(x) for x in prims]) + 9
    env = TelemetryEnvironment(mtu)
    store = Store(cx, env, prims, 2**20)
    for step in range(steps):
        for num in range(count):
            if cx.pick(f"any{step}.{num}", 2):
                idx = cx.pick(f"which{step}.{num}", 2)
                store.change(idx, f"{step}.{num}")
        now = cx.fix(f"now{step}", 3, step << 20, (step + 1) << 20)
        # channels aren't due
        env.dispatch(now)
        check_events(cx, env, drain(env.frame_queue), mtu, store.take(), now)


@case(prim=[P.UINT8, P.BOOLEAN], how=["dispatch", "late"])
def with_data(cx, prim, how):
    """Events and data of one dispatch are both there, each in its frame."""
    env = ChannelEnvironment(64)
    num = env.add_channel("c", prim, 0.0, True)
    time = cx.fix("time", 3, 0, 2**20)
    env.set_time(time)
    val = value(cx, "value", prim)
    cx.assume(val != type_default(prim))
    cx.check(env.set_now(num, val), "storing")
    now = cx.fix("now", 3, 0, 2**20)
    if how == "late":
        # a smaller MTU is set while the event is still queued
        env.handle_new_mtu(HEAD + CRC + event_size(prim))
    total = env.dispatch(now)
    frames = drain(env.frame_queue)
    cx.check(total == len(frames), "frames reported")
    kinds = []
    events = []
    for frame in frames:
        parsed = env.decode_frame(*frame.raw)
        kinds.append(parsed.header.type)
        if parsed.header.type == FrameType.EVENT:
            events.append(frame)
        else:
            chans = parsed.body["channels"]
            cx.check(len(chans) == 1, "one emission")
            same(cx, prim, chans[0]["value"], val, "emission")
    cx.check(FrameType.DATA in kinds, "data frame")
    cx.check(len(events) == 1, "event frame")
    check_events(
        cx,
        env,
        events,
        64,
        [(num, prim, (type_default(prim), 0.0), (val, time))],
        now,
    )
