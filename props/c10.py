"""C10: decoding arbitrary bytes."""

from queue import Queue

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.type_primitive import new_default
from vtelem.client import TelemetryClient
from vtelem.enums.primitive import Primitive
from vtelem.parsing.encapsulation import decode_frame
from vtelem.types.frame import FrameType

from props.frames import HEAD, drain
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "every byte string of 0..22 bytes, of any frame type, and "
    "of up to 27 by type and count; registries without channels and with "
    "channels of 1 and 8 bytes and a stream (padding: 1, 2, 8, a stream); any expected id",
    "thorough": "every byte string of up to 34 bytes, up to 60 by type",
}
OUTSIDE = "longer byte strings; other registries"
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]
TYPES = [x.value for x in FrameType]


def registry_of(name):
    """A registry to decode with."""
    if name == "empty":
        return ChannelRegistry()
    if name == "few":
        return ChannelRegistry(
            [
                Channel("a", P.UINT8, 0.0),
                Channel("s", P.UINT16, 0.0, is_stream=True),
                Channel("c", P.DOUBLE, 0.0),
            ]
        )
    chans = [Channel("a", P.UINT8, 0.0), Channel("b", P.INT16, 0.0)]
    if name == "mixed":
        chans.append(Channel("c", P.DOUBLE, 0.0))
        chans.append(Channel("d", P.BOOLEAN, 0.0))
        chans.append(Channel("s", P.UINT16, 0.0, is_stream=True))
    return ChannelRegistry(chans)


def state(registry):
    """What a registry tells about itself."""
    return (
        registry.count(),
        registry.describe(),
        [registry.get_id(x) for x in ("a", "b", "c", "d", "s")],
    )


def decode(cx, registry, data, size=None, expected=None):
    """Decode, never raising."""
    before = state(registry)
    ok, got = cx.catch(
        decode_frame,
        registry,
        data,
        len(data) if size is None else size,
        expected,
    )
    cx.check(ok, "decoding doesn't raise")
    cx.check(state(registry) == before, "the registry stays")
    return got


def consistent(cx, got, data, expected=None):
    """What was decoded is in the bytes."""
    cx.check(len(data) >= HEAD, "a whole header")
    cx.check(
        got.header.app_id == int.from_bytes(bytes(data[:2]), "big"), "id"
    )
    cx.check(int(got.header.type) == data[2], "type")
    cx.check(
        got.header.timestamp == int.from_bytes(bytes(data[3:11]), "big"),
        "timestamp",
    )
    count = int.from_bytes(bytes(data[11:15]), "big")
    cx.check(got.header.size == count, "count")
    room = len(data) - HEAD
    if got.header.type == FrameType.DATA:
        cx.check(len(got.body["channels"]) == count, "elements")
        cx.check(count * 3 <= room, "elements within the data")
    elif got.header.type == FrameType.EVENT:
        cx.check(len(got.body["events"]) == count, "events")
        cx.check(count * 20 <= room, "events within the data")
    elif got.header.type == FrameType.MESSAGE:
        cx.check(len(got.body["fragment_bytes"]) == count, "fragment")
        cx.check(count + 11 <= room, "fragment within the data")
    elif got.header.type == FrameType.STREAM:
        cx.check(len(got.body["data"]) == 2 * count, "stream data")
        cx.check(2 * count + 6 <= room, "stream data within the data")
    if expected is not None:
        cx.check(got.header.app_id == expected.get(), "expected id")


@case(
    quick={
        "size": list(range(0, 23)),
        "registry": ["empty", "few"],
    },
    thorough={
        "size": list(range(0, 35)),
        "registry": ["empty", "plain", "mixed"],
    },
    _max_paths=100000,
)
def anything(cx, size, registry):
    """Any bytes at all."""
    data = cx.bytes("data", size)
    reg = registry_of(registry)
    expected = None
    if cx.pick("expected", 2):
        expected = new_default("id")
        assert expected.set(cx.int("id", 0, 65535))
    got = decode(cx, reg, data, None, expected)
    if got is not None:
        consistent(cx, got, data, expected)


@case(
    quick={"kind": TYPES, "payload": [8, 12], "count": [0, 1, 2, 3, 2**32 - 1]},
    thorough={
        "kind": TYPES,
        "payload": [9, 12, 16, 20, 31, 45],
        "count": [0, 1, 2, 3, 5, 256, 2**32 - 1],
    },
    _max_paths=100000,
)
def body(cx, kind, payload, count):
    """A well-formed header of any count, then anything."""
    data = cx.bytes("id", 2) + bytes([kind]) + cx.bytes("time", 8)
    data = data + count.to_bytes(4, "big") + cx.bytes("payload", payload)
    reg = registry_of("few")
    got = decode(cx, reg, data)
    if got is not None:
        consistent(cx, got, data)


@case(
    quick={"size": [3, 14, 18, 19], "more": [1, 6]},
    thorough={"size": list(range(0, 25, 2)), "more": [1, 4, 9]},
)
def padding(cx, size, more):
    """Bytes after the given size aren't looked at."""
    data = cx.bytes("data", size)
    rest = cx.bytes("rest", more)
    reg = registry_of("mixed")
    one = decode(cx, reg, data)
    two = decode(cx, reg, data + rest, size)
    cx.check((one is None) == (two is None), "the same outcome")
    if one is not None:
        consistent(cx, two, data)
        cx.check(one.header == two.header, "the same header")
        cx.check(one.footer == two.footer, "the same footer")


def genuine(cx):
    """An environment and a genuine frame of it."""
    env = ChannelEnvironment(64, app_id_basis=0.25)
    for name, prim in (("a", P.UINT8), ("b", P.INT16)):
        env.add_channel(name, prim, 0.0)
    val = cx.int("value", 0, 255)
    env.set_now(0, val)
    env.dispatch_data(1.0)
    data, _ = drain(env.frame_queue)[0].raw
    return env, data, val


@case(
    quick={"sizes": [(0, 3), (14, 1), (17,), (21,)]},
    thorough={"sizes": [(x, y) for x in (0, 2, 15, 18, 22) for y in (4, 19)]},
)
def client(cx, sizes):
    """A client stays usable whatever frames it is handed."""
    env, good, val = genuine(cx)
    queue = Queue()
    telem = TelemetryClient("c", queue, env.channel_registry, env.app_id, 64)
    bad = [cx.bytes(f"bad{i}", x) for i, x in enumerate(sizes)]
    for one in bad:
        cx.assume(cx.neg(one == good))
    together = cx.pick("together", 2)
    ok = True
    if together:
        ok, _ = cx.catch(telem.handle_frames, bad + [good])
    else:
        stream = b""
        for one in bad + [good]:
            stream = stream + len(one).to_bytes(4, "big") + one
        ok, frames = cx.catch(
            telem.processor.process, stream, new_default("count"), telem.mtu
        )
        cx.check(ok, "reassembly doesn't raise")
        ok, _ = cx.catch(telem.handle_frames, frames)
    cx.check(ok, "handling frames doesn't raise")
    out = drain(queue)
    cx.check(len(out) >= 1, "a genuine frame is delivered")
    cx.check(len(out) <= 1 + len(bad), "nothing but what came")
    last = out[-1]
    cx.check(last.header.type == FrameType.DATA, "the genuine frame")
    cx.check(last.body["channels"][0]["value"] == val, "its content")
    cx.check(state(env.channel_registry)[0] == 2, "nothing registered")
