"""C02: frame sizes, contents and length headers."""

import zlib
from io import BytesIO

from vtelem.channel.environment import ChannelEnvironment
from vtelem.channel.framer import build_dummy_frame
from vtelem.enums.primitive import Primitive
from vtelem.frame.framer import Framer
from vtelem.message.framer import MessageFramer
from vtelem.stream.writer import default_writer
from vtelem.types.frame import MessageType

from props.frames import CRC, HEAD, drain, elem_size, event_size
from props.util import SIZE, value, wire
from vsym.api import case

P = Primitive
BOUNDS = {
    "quick": "data frames of mixes of 3 types at every MTU around the "
    "sizes of 1..3 elements, event frames alike, messages of 0..12 bytes "
    "at every MTU that leaves room for 1..6 bytes, filler of every size "
    "20..40; every value, time, application id and content",
    "thorough": "messages of 40 bytes, more mixes, two MTU changes",
}
OUTSIDE = "MTUs too small for one element (a frame can't be built)"
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]
FRAME_TYPE = {"invalid": 0, "data": 1, "event": 2, "message": 3}


def layout(cx, app_id, kind, time, count, content, crc):
    """A frame, byte for byte."""
    data = app_id.to_bytes(2, "big") + bytes([FRAME_TYPE[kind]])
    data = data + (int(time * 8) * 125).to_bytes(8, "big")
    data = data + count.to_bytes(4, "big") + content
    if crc:
        data = data + zlib.crc32(data).to_bytes(4, "big")
    return data


def exact(cx, frame, want, mtu, done=None):
    """A finalized frame is exactly these bytes, with an exact header."""
    data, size = frame.raw
    cx.check(size == len(want), "size of a frame")
    cx.check(len(data) == size, "length of the raw bytes")
    cx.check(size <= mtu, "within the MTU")
    cx.check(data == want, "raw bytes")
    full, length = frame.with_size_header()
    cx.check(len(full) == length, "size with header")
    cx.check(length == size + 4, "header size")
    cx.check(full[:4] == len(want).to_bytes(4, "big"), "length header")
    cx.check(full[4:] == want, "bytes after the header")
    cx.check(frame.finalize() == size, "finalizing again")
    again, _ = frame.raw
    cx.check(again == want, "raw bytes stay")


def fits(cx, sizes, room, frames):
    """Cut element sizes into frames in order, none could take one more."""
    out = []
    pos = 0
    for num in frames:
        out.append(range(pos, pos + num))
        cx.check(num > 0, "no empty frame")
        cx.check(sum(sizes[pos : pos + num]) <= room, "frame fits")
        pos += num
    cx.check(pos == len(sizes), "all elements framed")
    return out


def count_of(frame):
    """Element count of a data or event frame, from its bytes."""
    data, _ = frame.raw
    return int.from_bytes(bytes(data[11:15]), "big")


MIXES = {
    "small": [P.UINT8, P.BOOLEAN, P.INT8],
    "mixed": [P.INT16, P.UINT64, P.INT8],
    "float": [P.DOUBLE, P.UINT32, P.FLOAT],
}


@case(
    quick={"mix": ["small", "mixed"], "crc": [True]},
    thorough={"mix": list(MIXES), "crc": [True, False]},
)
def data_frames(cx, mix, crc):
    """Channel data at every MTU, then at a smaller one."""
    prims = MIXES[mix]
    over = HEAD + (CRC if crc else 0)
    sizes = [elem_size(x) for x in prims]
    low = over + max(sizes)
    mtu = low + cx.pick("mtu", sum(sizes) - max(sizes) + 2)
    basis = cx.fix("basis", 8, 0, 4)
    cx.assume(basis <= 1)
    env = ChannelEnvironment(mtu, app_id_basis=basis, use_crc=crc)
    chans = [env.add_channel(f"c{i}", x, 0.0) for i, x in enumerate(prims)]
    time = 0.0
    for step in range(2):
        if step:
            mtu = low + cx.pick("newmtu", mtu - low + 1)
            env.handle_new_mtu(mtu)
        vals = []
        for idx, prim in enumerate(prims):
            vals.append(value(cx, f"value{step}.{idx}", prim, True))
            cx.check(env.set_now(chans[idx], vals[-1]), "storing")
        time = time + cx.fix(f"elapsed{step}", 3, 0, 2**38)
        env.dispatch(time)
        frames = drain(env.frame_queue)
        parts = fits(cx, sizes, mtu - over, [count_of(x) for x in frames])
        for frame, part in zip(frames, parts):
            content = b""
            for idx in part:
                content = content + chans[idx].to_bytes(2, "big")
            for idx in part:
                content = content + wire(prims[idx], vals[idx])
            exact(
                cx,
                frame,
                layout(
                    cx, env.app_id.get(), "data", time, len(part), content, crc
                ),
                mtu,
            )


@case(
    quick={"prim": [P.UINT8, P.INT32], "count": [3], "crc": [True]},
    thorough={
        "prim": [P.UINT8, P.INT32, P.DOUBLE, P.BOOLEAN],
        "count": [3, 4],
        "crc": [True, False],
    },
)
def event_frames(cx, prim, count, crc):
    """Events at MTUs around every number of events per frame."""
    size = event_size(prim)
    over = HEAD + (CRC if crc else 0)
    per = 1 + cx.pick("per", count)
    slack = cx.choice("slack", [0, 1, size - 1])
    mtu = over + per * size + slack
    env = ChannelEnvironment(mtu, use_crc=crc)
    chan = env.add_channel("c", prim, 2.0**40, True)
    vals = [value(cx, "value0", prim, True)]
    env.set_now(chan, vals[0])
    first = drain(env.event_queue.queue)
    times = [cx.fix("stored0", 3, 0, 2**40)]
    env.set_time(times[0])
    del first
    # the first store had time zero
    times[0] = 0.0
    for idx in range(1, count + 1):
        times.append(cx.fix(f"stored{idx}", 3, 0, 2**40))
        env.set_time(times[idx])
        vals.append(value(cx, f"value{idx}", prim, True))
        cx.assume(vals[idx] != vals[idx - 1])
        cx.check(env.set_now(chan, vals[idx]), "storing")
    now = cx.fix("now", 3, 0, 2**30)
    env.dispatch_events(now)
    frames = drain(env.frame_queue)
    parts = fits(
        cx, [size] * count, mtu - over, [count_of(x) for x in frames]
    )
    for frame, part in zip(frames, parts):
        content = chan.to_bytes(2, "big") * len(part)
        for idx in part:
            for spot in (idx, idx + 1):
                content = content + wire(prim, vals[spot])
                content = content + (int(times[spot] * 8) * 125).to_bytes(
                    8, "big"
                )
        exact(
            cx,
            frame,
            layout(
                cx, env.app_id.get(), "event", now, len(part), content, crc
            ),
            mtu,
        )


FIELDS = 1 + 2 + 4 + 2 + 2


@case(
    quick={"size": [1, 5, 12], "crc": [True]},
    thorough={"size": [1, 2, 7, 12, 40], "crc": [True, False]},
)
def message_frames(cx, size, crc):
    """A message of any content, with any room per fragment."""
    room = 1 + cx.pick("room", min(size, 6) + 1)
    mtu = HEAD + FIELDS + (CRC if crc else 0) + room
    framer = MessageFramer(mtu, 0.5, crc)
    kind = cx.choice("kind", list(MessageType))
    content = cx.bytes("content", size)
    time = cx.fix("time", 3, 0, 2**40)
    frames, total = framer.serialize_message(content, time, kind)
    want = [
        content[pos : pos + room] for pos in range(0, size, room)
    ]
    cx.check(len(frames) == len(want), "number of fragments")
    summed = 0
    for idx, (frame, part) in enumerate(zip(frames, want)):
        body = bytes([kind.value]) + (0).to_bytes(2, "big")
        body = body + zlib.crc32(content).to_bytes(4, "big")
        body = body + idx.to_bytes(2, "big") + len(want).to_bytes(2, "big")
        data = layout(
            cx,
            framer.primitives["app_id"].get(),
            "message",
            time,
            len(part),
            body + part,
            crc,
        )
        summed += len(data)
        exact(cx, frame, data, mtu)
    cx.check(total == summed, "bytes reported")


@case(quick={"top": [24]}, thorough={"top": [64]})
def filler(cx, top):
    """Stream filler of a requested size."""
    size = HEAD + CRC + 1 + cx.pick("size", top)
    frame = build_dummy_frame(size, 0.25, cx.choice("bad", [False, True]))
    data, length = frame.raw
    cx.check(length == size, "size of filler")
    cx.check(len(data) == size, "bytes of filler")
    full, length = frame.with_size_header()
    cx.check(length == size + 4, "size with header")
    cx.check(full[:4] == size.to_bytes(4, "big"), "length header")
    cx.check(len(full) == size + 4, "bytes with header")


@case(crc=[True, False])
def padding(cx, crc):
    """Bytes added after a frame."""
    mtu = HEAD + CRC + 20
    env = ChannelEnvironment(mtu, use_crc=crc)
    env.add_channel("c", P.UINT8, 0.0)
    env.dispatch_data(1.0)
    (frame,) = drain(env.frame_queue)
    before = bytes(frame.raw[0])
    size = len(before)
    for step in range(2):
        amount = cx.pick(f"amount{step}", 24)
        added = frame.pad(amount)
        cx.check(added == min(amount, mtu - size), "as much as there's room")
        size += added
        data, length = frame.raw
        cx.check(length == size and len(data) == size, "exact size")
        cx.check(bytes(data) == before + bytes(size - len(before)), "zeros")
    frame.pad_to_mtu()
    cx.check(frame.raw[1] == len(frame.raw[0]) == mtu, "up to the MTU")


@case(
    quick={"counts": [(1, 2)]}, thorough={"counts": [(1, 2), (3, 1), (2, 2)]}
)
def stream(cx, counts):
    """Frames of several kinds and sizes written to one stream."""
    env = ChannelEnvironment(HEAD + CRC + 2 * elem_size(P.INT32))
    chans = [env.add_channel(f"c{i}", P.INT32, 0.0) for i in range(3)]
    writer, queue = default_writer()
    out = BytesIO()
    out.name = "stream"
    writer.add_stream(out)
    want = []
    for step, _ in enumerate(counts):
        for chan in chans[: counts[step]]:
            env.set_now(chan, cx.int(f"value{step}.{chan}", -(2**31), 2**31 - 1))
        env.dispatch(cx.fix(f"time{step}", 3, step << 30, (step + 1) << 30))
        for frame in drain(env.frame_queue):
            want.append(bytes(frame.raw[0]))
            queue.put(frame)
    framer = MessageFramer(40)
    text = cx.bytes("message", 11)
    for frame in framer.serialize_message(text)[0]:
        want.append(bytes(frame.raw[0]))
        queue.put(frame)
    queue.put(None)
    writer.run()
    data = out.getvalue()
    pos = 0
    for one in want:
        num = int.from_bytes(data[pos : pos + 4], "big")
        cx.check(num == len(one), "length header")
        pos += 4
        cx.check(data[pos : pos + len(one)] == one, "frame on the stream")
        pos += len(one)
    cx.check(pos == len(data), "nothing else on the stream")
