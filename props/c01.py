"""C01: channel data arrives complete, in order and unchanged."""

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import FrameType

from props.frames import CRC, HEAD, drain, elem_size, same
from props.util import ALL, value
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "every type alone, mixes of 3 channels of 1..8 byte types; "
    "every value; every time that is a multiple of 1/8 s up to 2^41 s; "
    "2 dispatches with any due/not due combination; every MTU from the "
    "smallest that holds the largest element up to one that holds all",
    "thorough": "mixes of 4 and 5 channels, 3 dispatches",
}
OUTSIDE = (
    "more channels and dispatches; times that aren't multiples of 1/8 s "
    "(their conversion is C32's); frames decoded with another registry"
)
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]
MIXES = {
    "narrow": [P.BOOLEAN, P.UINT8, P.INT8],
    "mixed": [P.UINT8, P.DOUBLE, P.UINT16],
    "signed": [P.INT64, P.INT16, P.INT32],
    "wide": [P.UINT64, P.FLOAT, P.BOOLEAN],
    "four": [P.UINT32, P.BOOLEAN, P.INT64, P.UINT16],
    "five": [P.UINT8, P.FLOAT, P.INT16, P.UINT64, P.BOOLEAN],
}


def check_frames(cx, env, frames, mtu, expect, time, crc=True):
    """Frames decode to exactly the expected (id, type, value) elements."""
    got = []
    for frame in frames:
        data, size = frame.raw
        cx.check(size <= mtu, "size")
        parsed = env.decode_frame(data, size, env.app_id)
        cx.check(parsed is not None, "decodes")
        cx.check(parsed.header.type == FrameType.DATA, "frame type")
        cx.check(parsed.header.app_id == env.app_id.get(), "application id")
        cx.check(
            parsed.header.timestamp == int(time * 8) * 125,
            "frame timestamp",
        )
        chans = parsed.body["channels"]
        cx.check(len(chans) > 0, "no empty frame")
        cx.check(parsed.header.size == len(chans), "element count")
        cx.check((parsed.footer.crc is not None) == crc, "footer")
        for chan in chans:
            got.append((chan["id"], chan["value"]))
    cx.check(len(got) == len(expect), "number of emissions delivered")
    for one, two in zip(got, expect):
        cx.check(one[0] == two[0], "channel of an emission")
        same(cx, two[1], one[1], two[2], "value of an emission")
    cx.observe("got", got)


@case(prim=ALL, crc=[True, False])
def single(cx, prim, crc):
    """One channel of each type: any value, time and application id."""
    env = ChannelEnvironment(256, use_crc=crc)
    chan = env.add_channel("c", prim, 0.0)
    val = value(cx, "value", prim)
    ok, res = cx.catch(env.set_now, chan, val)
    cx.check(ok and res, "storing")
    time = cx.fix("time", 3, 0, 2**41)
    env.dispatch(time)
    # dispatching leaves the channel's value alone
    later = value(cx, "later", prim)
    frames = drain(env.frame_queue)
    env.set_now(chan, later)
    check_frames(cx, env, frames, 256, [(chan, prim, val)], time, crc)


def smallest(mix):
    """The smallest MTU that holds any one element."""
    return HEAD + CRC + max([elem_size(x) for x in mix])


def total(mix):
    """The MTU that holds all elements."""
    return HEAD + CRC + sum([elem_size(x) for x in mix])


@case(
    quick={"mix": ["narrow", "mixed", "signed", "wide"]},
    thorough={"mix": list(MIXES)},
)
def every_mtu(cx, mix):
    """One dispatch, any channels due, at every MTU."""
    prims = MIXES[mix]
    low = smallest(prims)
    mtu = low + cx.pick("mtu", total(prims) - low + 2)
    dispatches(cx, prims, mtu, 1)


@case(
    quick={"mix": ["narrow", "mixed"], "steps": [2], "room": [0, 4]},
    thorough={"mix": list(MIXES), "steps": [2, 3], "room": [0, 2, 4, 9, 99]},
)
def history(cx, mix, steps, room):
    """Several dispatches."""
    prims = MIXES[mix]
    dispatches(cx, prims, smallest(prims) + room, steps)


def dispatches(cx, prims, mtu, steps):
    """Several channels, periods and dispatches."""
    env = ChannelEnvironment(mtu)
    chans = []
    rates = []
    vals = []
    for idx, prim in enumerate(prims):
        rate = cx.fix(f"rate{idx}", 3, 0, 2**20)
        rates.append(rate)
        vals.append(value(cx, f"value{idx}", prim, True))
        chans.append(env.add_channel(f"c{idx}", prim, rate))
        cx.check(env.set_now(chans[-1], vals[-1]), "storing")
    last = [0.0 for _ in prims]
    now = 0.0
    for step in range(steps):
        now = now + cx.fix(f"elapsed{step}", 3, 0, 2**20)
        due = []
        for idx, prim in enumerate(prims):
            if now >= last[idx] + rates[idx]:
                due.append((chans[idx], prim, vals[idx]))
                last[idx] = now
        env.dispatch(now)
        check_frames(cx, env, drain(env.frame_queue), mtu, due, now)


@case(
    quick={"mix": ["mixed"], "queued": [2]},
    thorough={"mix": ["mixed", "wide", "signed"], "queued": [2, 3]},
)
def backlog(cx, mix, queued):
    """Frames of earlier dispatches that are decoded later."""
    prims = MIXES[mix]
    low = smallest(prims)
    mtu = low + cx.pick("mtu", total(prims) - low + 1)
    env = TelemetryEnvironment(mtu)
    chans = [env.add_channel(f"c{i}", x, 0.0) for i, x in enumerate(prims)]
    expect = []
    times = []
    counts = []
    now = 0.0
    for step in range(queued):
        now = now + cx.fix(f"elapsed{step}", 3, 0, 2**30)
        due = []
        for idx, prim in enumerate(prims):
            val = value(cx, f"value{step}.{idx}", prim, True)
            cx.check(env.set_now(chans[idx], val), "storing")
            due.append((chans[idx], prim, val))
        counts.append(env.dispatch(now))
        expect.append(due)
        times.append(now)
    frames = drain(env.frame_queue)
    cx.check(len(frames) == sum(counts), "number of frames reported")
    for step in range(queued):
        mine = frames[: counts[step]]
        frames = frames[counts[step] :]
        check_frames(cx, env, mine, mtu, expect[step], times[step])


@case(
    quick={"first": ["mixed"], "cut": [1, 9]},
    thorough={"first": ["mixed", "wide", "signed"], "cut": [1, 5, 9, 40]},
)
def smaller_mtu(cx, first, cut):
    """The MTU shrinks between dispatches (and never grows)."""
    prims = MIXES[first]
    mtu = total(prims) + 5
    env = ChannelEnvironment(mtu)
    chans = [env.add_channel(f"c{i}", x, 0.0) for i, x in enumerate(prims)]
    for step, new in enumerate([mtu - cut, mtu + cut, mtu]):
        now = cx.fix(f"time{step}", 3, step * 64, step * 64 + 63)
        env.handle_new_mtu(max(new, smallest(prims)))
        bound = min(mtu, max(mtu - cut, smallest(prims)))
        due = []
        for idx, prim in enumerate(prims):
            val = value(cx, f"value{step}.{idx}", prim, True)
            cx.check(env.set_now(chans[idx], val), "storing")
            due.append((chans[idx], prim, val))
        env.dispatch(now)
        check_frames(cx, env, drain(env.frame_queue), bound, due, now)


@case(count=[1, 3], crc=[True, False])
def initial(cx, count, crc):
    """Channels given at construction are emitted like added ones."""
    prims = [P.UINT16, P.INT8, P.BOOLEAN][:count]
    chans = [Channel(f"c{i}", x, 0.0) for i, x in enumerate(prims)]
    env = ChannelEnvironment(64, initial_channels=chans, use_crc=crc)
    due = []
    for idx, prim in enumerate(prims):
        val = value(cx, f"value{idx}", prim)
        num = env.channel_registry.get_id(f"c{idx}")
        cx.check(env.set_now(num, val), "storing")
        due.append((num, prim, val))
    time = cx.fix("time", 3, 0, 2**41)
    env.dispatch(time)
    check_frames(cx, env, drain(env.frame_queue), 64, due, time, crc)
