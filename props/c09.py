"""C09: corrupted and foreign frames."""

import zlib
from queue import Queue

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.type_primitive import new_default
from vtelem.client import TelemetryClient
from vtelem.enums.primitive import Primitive
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.types.frame import MessageType

from props.frames import CRC, HEAD, drain, same
from props.util import value, wire
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "data and event frames of 1 and 2 elements of channels of one "
    "type (1, 2, 4 or 8 bytes), messages of 1..4 bytes and stream frames of "
    "2 elements, with a footer; every content, id and time; one byte "
    "anywhere in id, time, payload or footer changed to any other value; "
    "any wrong footer; any expected application id",
    "thorough": "also 3 elements and messages of 12 bytes, every type",
}
OUTSIDE = (
    "changes of the type or count byte (they change the layout; also those "
    "of an id to that of a channel of another size)"
)
ASSUMPTIONS = [
    "two byte strings of equal length that differ in one byte have "
    "different CRC-32 (a fact about the polynomial)",
]


def deliver(cx, registry, data, expected=None):
    """What consumers get for a frame, decoded in both ways."""
    ok, got = cx.catch(decode_frame, registry, data, len(data), expected)
    queue = Queue()
    client = TelemetryClient("client", queue, registry, expected)
    ok2, num = cx.catch(client.handle_frames, [data])
    sent = drain(queue)
    if ok2:
        cx.check(num == len(sent), "count of the frames delivered")
    one = got if ok else None
    cx.check(len(sent) == (0 if one is None else 1), "client and decoder agree")
    if sent:
        cx.check(
            sent[0].header.app_id == one.header.app_id, "same frame delivered"
        )
    return one


def environment(prim, amount, crc=True, app_id=None):
    """Channels of one type; ids of others are unknown."""
    env = ChannelEnvironment(256, app_id_basis=0.5, use_crc=crc)
    ids = [env.add_channel(f"c{i}", prim, 0.0, True) for i in range(amount)]
    if app_id is not None:
        assert env.app_id.set(app_id)
    return env, ids


def genuine(cx, kind, prim, amount, app_id=None, crc=True):
    """A registry and the bytes of a genuine frame of symbolic content."""
    now = cx.fix("now", 3, 0, 2**41)
    if kind == "message":
        framer = MessageFramer(256, 0.5, crc)
        if app_id is not None:
            assert framer.primitives["app_id"].set(app_id)
        mtype = cx.choice("type", list(MessageType))
        frame = framer.serialize_message(
            cx.bytes("message", amount), now, mtype
        )[0][0]
        return ChannelRegistry(), frame.raw[0]
    if kind == "stream":
        chan = Channel("s", prim, 0.0, is_stream=True)
        registry = ChannelRegistry([Channel("c", prim, 0.0), chan])
        data = (0 if app_id is None else app_id).to_bytes(2, "big") + b"\4"
        data = data + cx.bytes("time", 8) + amount.to_bytes(4, "big")
        data = data + b"\0\1" + cx.bytes("index", 4)
        for i in range(amount):
            data = data + wire(prim, value(cx, f"v{i}", prim, True))
        if crc:
            data = data + zlib.crc32(data).to_bytes(4, "big")
        return registry, data
    env, ids = environment(prim, amount, crc, app_id)
    for i, chan in enumerate(ids):
        val = value(cx, f"v{i}", prim, True)
        if kind == "event":
            initial = env.get_value(chan)
            cx.assume(cx.neg(cx.iff(val, initial) if prim is P.BOOLEAN
                             else val == initial))
        env.set_now(chan, val)
    if kind == "data":
        env.dispatch_data(now)
    else:
        env.dispatch_events(now)
    return env.channel_registry, drain(env.frame_queue)[0].raw[0]


CONTENT = {
    "quick": [
        ("data", P.UINT8, 1), ("data", P.UINT32, 2), ("data", P.DOUBLE, 2),
        ("data", P.BOOLEAN, 1), ("event", P.INT16, 1), ("event", P.FLOAT, 1),
        ("event", P.UINT8, 2), ("message", None, 1), ("message", None, 4),
        ("stream", P.UINT16, 2),
    ],
    "thorough": [
        ("data", P.UINT8, 3), ("data", P.UINT64, 2), ("data", P.INT16, 3),
        ("data", P.FLOAT, 2), ("event", P.BOOLEAN, 2), ("event", P.INT64, 1),
        ("event", P.DOUBLE, 2), ("event", P.INT8, 3), ("message", None, 12),
        ("stream", P.UINT64, 2), ("stream", P.UINT8, 3),
        ("data", P.UINT32, 2), ("event", P.UINT32, 2),
    ],
}


@case(
    quick={"content": CONTENT["quick"], "part": ["head", "payload", "crc"]},
    thorough={
        "content": CONTENT["thorough"], "part": ["head", "payload", "crc"]
    },
    _burst=True,
)
def one_byte(cx, content, part):
    """One changed byte: not delivered."""
    kind, prim, amount = content
    registry, data = genuine(cx, kind, prim, amount)
    cx.check(
        deliver(cx, registry, data) is not None, "a genuine frame is delivered"
    )
    size = len(data)
    places = {
        "head": [0, 1] + list(range(3, 11)),
        "payload": list(range(HEAD, size - CRC)),
        "crc": list(range(size - CRC, size)),
    }[part]
    pos = cx.choice("pos", places)
    other = cx.bytes("other", 1)
    cx.assume(cx.neg(other == data[pos : pos + 1]))
    bad = bytes(data[:pos]) + other + bytes(data[pos + 1 :])
    cx.check(deliver(cx, registry, bad) is None, "not delivered")
    # what was decoded before is still accepted
    cx.check(deliver(cx, registry, data) is not None, "still delivered")


@case(
    quick={"content": CONTENT["quick"][::2]},
    thorough={"content": CONTENT["thorough"]},
)
def wrong_footer(cx, content):
    """Any footer but the right one: not delivered."""
    kind, prim, amount = content
    registry, data = genuine(cx, kind, prim, amount)
    body = bytes(data[: len(data) - CRC])
    right = zlib.crc32(body)
    crc = cx.int("crc", 0, 2**32 - 1)
    got = deliver(cx, registry, body + crc.to_bytes(4, "big"))
    if crc == right:
        cx.check(got is not None, "right footer")
        cx.check(got.footer.crc == crc, "footer of the frame")
    else:
        cx.check(got is None, "wrong footer")


@case(
    quick={"content": CONTENT["quick"][1:9:2], "crc": [True, False]},
    thorough={"content": CONTENT["thorough"], "crc": [True, False]},
)
def expected(cx, content, crc):
    """Frames of another application are not delivered, own ones are."""
    kind, prim, amount = content
    own = cx.int("own", 0, 65535)
    registry, data = genuine(cx, kind, prim, amount, own, crc)
    cx.check(int.from_bytes(bytes(data[:2]), "big") == own, "id in the frame")
    want = new_default("id")
    number = cx.int("expected", 0, 65535)
    assert want.set(number)
    got = deliver(cx, registry, data, want)
    if number == own:
        cx.check(got is not None, "own frames are delivered")
    else:
        cx.check(got is None, "foreign frames aren't")
    got = deliver(cx, registry, data)
    cx.check(got is not None, "every frame when no id is expected")
    cx.check(got.header.app_id == own, "id of the frame")
    cx.check(want.get() == number, "the expected id stays")


@case(kind=["data", "event"])
def bad_checksum(cx, kind):
    """Frames built without a valid checksum are refused."""
    env, ids = environment(P.UINT16, 2)
    env.write_crc = False
    val = cx.int("value", 1, 65535)
    env.set_now(ids[0], val)
    env.set_now(ids[1], val)
    now = cx.fix("now", 3, 0, 2**41)
    if kind == "data":
        env.dispatch_data(now)
    else:
        env.dispatch_events(now)
    data = drain(env.frame_queue)[0].raw[0]
    right = zlib.crc32(bytes(data[: len(data) - CRC]))
    written = int.from_bytes(bytes(data[len(data) - CRC :]), "big")
    cx.assume(cx.neg(right == written))
    cx.check(deliver(cx, env.channel_registry, data) is None, "refused")
    cx.check(env.decode_frame(data, len(data)) is None, "refused here too")
    env.write_crc = True
    env.set_now(ids[0], 0)
    env.dispatch_data(now + 1)
    data = drain(env.frame_queue)[0].raw[0]
    cx.check(env.decode_frame(data, len(data)) is not None, "valid again")
