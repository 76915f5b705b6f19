"""C32: times and application ids in frames."""

from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.frame import time_to_int
from vtelem.frame.framer import Framer, basis_to_int
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame

from props.frames import drain
from vsym.api import case

BOUNDS = {
    "both": "times: every double that is a multiple of 2^-20 s below 2^33 s, "
    "of 2^-10 s below 2^43 s and of 2^-40 s below 2^13 s (also negative "
    "for the conversion itself); precisions 1, 1000 and 10^6; bases: every "
    "double but NaN; random ids: every outcome",
}
OUTSIDE = "other doubles (their product with the precision is rounded)"
GRIDS = [(10, 43), (20, 33), (40, 13)]


@case(grid=GRIDS, precision=[1000, 1], negative=[False, True])
def convert(cx, grid, precision, negative):
    """The integer of a time is the number of whole units before it."""
    scale, bits = grid
    low = -(2**bits) if negative else 0
    time = cx.fix("time", scale, low, 2**bits)
    got = time_to_int(time, precision)
    unit = int(time * 2**scale)
    # whole units: got <= time * precision < got + 1, without rounding
    cx.check(got * 2**scale <= unit * precision, "not after the time")
    cx.check((got + 1) * 2**scale > unit * precision, "within one unit")
    if precision == 1000:
        cx.check(time_to_int(time) == got, "milliseconds by default")


@case(grid=GRIDS, precision=[1000])
def order(cx, grid, precision):
    """Later times have no smaller integers; exact units come back."""
    scale, bits = grid
    one = cx.fix("one", scale, 0, 2 ** (bits - 1))
    two = one + cx.fix("more", scale, 0, 2 ** (bits - 1))
    cx.check(
        time_to_int(one, precision) <= time_to_int(two, precision), "order"
    )


@case()
def micro(cx):
    """A finer precision."""
    time = cx.fix("time", 20, 0, 2**33)
    got = time_to_int(time, 1000000)
    unit = int(time * 2**20)
    cx.check(got * 2**20 <= unit * 1000000, "not after the time")
    cx.check((got + 1) * 2**20 > unit * 1000000, "within one unit")


@case(kind=["data", "event", "message"], grid=GRIDS)
def in_frame(cx, kind, grid):
    """The time of a frame arrives as its integer."""
    scale, bits = grid
    time = cx.fix("time", scale, 0, 2**bits)
    unit = int(time * 2**scale)
    env = ChannelEnvironment(256)
    chan = env.add_channel("c", Primitive.UINT8, 0.0, True)
    if kind == "message":
        framer = MessageFramer(256)
        frame = framer.serialize_message(b"x", time)[0][0]
    else:
        env.set_now(chan, 1)
        if kind == "data":
            env.dispatch_data(time)
        else:
            env.dispatch_events(time)
        frame = drain(env.frame_queue)[0]
    parsed = decode_frame(env.channel_registry, *frame.raw)
    got = parsed.header.timestamp
    cx.check(got * 2**scale <= unit * 1000, "not after the time")
    cx.check((got + 1) * 2**scale > unit * 1000, "within one millisecond")


@case(_query_ms=200000, _deadline=400)
def basis_range(cx):
    """Any basis gives an id that a frame can carry."""
    basis = cx.float("basis", nan=False)
    got = basis_to_int(basis)
    cx.check(got >= 0, "not negative")
    cx.check(got <= 65535, "in range")


@case()
def basis_id(cx):
    """The id of a basis: its fraction of the range, the same each time."""
    basis = cx.fix("basis", 10, -1, 1)
    if cx.pick("above", 2):
        # above one, the inverse is used
        basis = cx.choice("sign", [1.0, -1.0]) * (
            1 + cx.pick("eighths", 32) / 8
        )
    one = Framer.create_app_id(basis)
    two = Framer.create_app_id(basis)
    cx.check(one.get() == two.get(), "the same id each time")
    cx.check(0 <= one.get(), "not negative")
    cx.check(one.get() <= 65535, "in range")
    mag = abs(basis)
    if mag <= 1:
        unit = int(mag * 1024)
        cx.check(one.get() * 1024 <= unit * 65535, "fraction of the range")
        cx.check((one.get() + 1) * 1024 > unit * 65535, "its whole part")


@case(crc=[True, False])
def travel(cx, crc):
    """The id an environment has is the one its frames carry."""
    if cx.pick("random", 2):
        env = ChannelEnvironment(64, use_crc=crc)
    else:
        env = ChannelEnvironment(
            64, app_id_basis=cx.fix("basis", 12, -1, 1), use_crc=crc
        )
    env.add_channel("c", Primitive.UINT8, 0.0)
    env.dispatch_data(1.0)
    frame = drain(env.frame_queue)[0]
    parsed = env.decode_frame(*frame.raw)
    cx.check(parsed.header.app_id == env.app_id.get(), "id in the frame")
    cx.check(0 <= env.app_id.get(), "not negative")
    cx.check(env.app_id.get() <= 65535, "in range")
