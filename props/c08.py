"""C08: stream reassembly."""

from vtelem.classes.type_primitive import new_default
from vtelem.frame.processor import FrameProcessor

from vsym.api import case

BOUNDS = {
    "quick": "streams of up to 2 frames of 0..3 arbitrary bytes cut into any "
    "3 chunks (empty ones too); one step: any reachable state after up to 5 "
    "arbitrary bytes, then up to 5 arbitrary bytes whole or cut anywhere; "
    "MTUs 3 and 300; oversize headers of any value at any point",
    "thorough": "3 frames, 4 chunks; states after 9 bytes, 9 more bytes",
}
OUTSIDE = "payloads longer than 3 bytes other than two fixed long lengths"
HEAD = 4


def header(size):
    """The length header of a frame."""
    return size.to_bytes(HEAD, "big")


def feed(proc, data, mtu):
    """Process one chunk."""
    return [bytes(x) for x in proc.process(data, new_default("count"), mtu)]


@case(
    quick={"frames": [1, 2], "chunks": [3], "top": [3]},
    thorough={"frames": [1, 2, 3], "chunks": [3, 4], "top": [2, 4]},
)
def chunked(cx, frames, chunks, top):
    """Any frames, any chunking."""
    sizes = [cx.pick(f"size{i}", top + 1) for i in range(frames)]
    frame = [cx.bytes(f"frame{i}", n) for i, n in enumerate(sizes)]
    data = b""
    ends = []
    for one in frame:
        data = data + header(len(one)) + one
        ends.append(len(data))
    cuts = [0]
    for i in range(chunks - 1):
        cuts.append(cuts[-1] + cx.pick(f"cut{i}", len(data) - cuts[-1] + 1))
    cuts.append(len(data))
    proc = FrameProcessor()
    got = []
    for start, end in zip(cuts, cuts[1:]):
        got = got + feed(proc, data[start:end], top)
        due = len([x for x in ends if x <= end])
        cx.check(len(got) == due, "each frame as soon as it is complete")
    cx.check(len(got) == frames, "every frame")
    for one, two in zip(got, frame):
        cx.check(one == two, "frame content")
    cx.observe("got", got)


@case(sizes=[(0, 1), (1, 3), (3, 0), (2, 2)])
def bytewise(cx, sizes):
    """One byte at a time."""
    frame = [cx.bytes(f"frame{i}", n) for i, n in enumerate(sizes)]
    data = b""
    for one in frame:
        data = data + header(len(one)) + one
    proc = FrameProcessor()
    got = []
    for idx in range(len(data)):
        got = got + feed(proc, data[idx : idx + 1], 3)
    cx.check(len(got) == len(frame), "every frame")
    for one, two in zip(got, frame):
        cx.check(one == two, "frame content")


def reference(cx, data, mtu):
    """Frames in a byte string, by the stream format; no oversize header."""
    out = []
    pos = 0
    while pos + HEAD <= len(data):
        size = 0
        for byte in data[pos : pos + HEAD]:
            size = size * 256 + byte
        cx.assume(size <= mtu)
        num = 0
        while num < mtu and not size == num:
            num += 1
        if pos + HEAD + num > len(data):
            break
        out.append(data[pos + HEAD : pos + HEAD + num])
        pos += HEAD + num
    return out


@case(
    quick={"before": [0, 2, 5], "size": [1, 4, 5], "after": [5]},
    thorough={
        "before": [0, 1, 3, 4, 5, 7, 9],
        "size": [1, 3, 5, 9],
        "after": [0, 6],
    },
    mtu=[3],
)
def split(cx, before, size, after, mtu):
    """From any state, a chunk and its two halves give the same."""
    first = cx.bytes("before", before)
    data = cx.bytes("data", size)
    last = cx.bytes("after", after)
    cut = cx.pick("cut", size + 1)
    expect = reference(cx, first + data + last, mtu)
    one, two = FrameProcessor(), FrameProcessor()
    got1 = feed(one, first, mtu)
    got2 = feed(two, first, mtu)
    got1 = got1 + feed(one, data, mtu)
    got2 = got2 + feed(two, data[:cut], mtu) + feed(two, data[cut:], mtu)
    cx.check(len(got1) == len(got2), "same number of frames")
    due = reference(cx, first + data, mtu)
    cx.check(len(got1) == len(due), "frames come when complete")
    got1 = got1 + feed(one, last, mtu)
    got2 = got2 + feed(two, last, mtu)
    cx.check(len(got1) == len(expect), "frames of the stream")
    cx.check(len(got2) == len(expect), "frames of the cut stream")
    for left, right, want in zip(got1, got2, expect):
        cx.check(left == want, "frame content")
        cx.check(right == want, "frame content when cut")
    cx.observe("got", got1)


@case(
    quick={"junk": [0, 1, 5], "cuts": [1], "mtu": [3]},
    thorough={"junk": [0, 1, 3, 4, 5, 8], "cuts": [1, 2], "mtu": [3, 70]},
)
def oversize(cx, junk, cuts, mtu):
    """A too large header, then a genuine frame delivered on its own."""
    proc = FrameProcessor()
    # an earlier genuine frame
    early = cx.bytes("early", cx.pick("early", 3))
    got = feed(proc, header(len(early)) + early, mtu)
    cx.check(len(got) == 1, "frame before")
    size = cx.int("size", mtu + 1, 2**32 - 1)
    bad = size.to_bytes(HEAD, "big") + cx.bytes("junk", junk)
    split_at = cx.pick("split", HEAD)
    got = feed(proc, bad[:split_at], mtu) + feed(proc, bad[split_at:], mtu)
    cx.check(len(got) == 0, "an oversize header yields nothing")
    good = cx.bytes("good", cx.pick("good", 3))
    data = header(len(good)) + good
    points = [0]
    for i in range(cuts):
        points.append(
            points[-1] + cx.pick(f"cut{i}", len(data) - points[-1] + 1)
        )
    points.append(len(data))
    got = []
    for start, end in zip(points, points[1:]):
        got = got + feed(proc, data[start:end], mtu)
    cx.check(len(got) == 1, "the genuine frame is processed")
    cx.check(got[0] == good, "with its content")
    more = cx.bytes("more", 2)
    got = feed(proc, header(2) + more, mtu)
    cx.check(len(got) == 1 and got[0] == more, "and the next one")


@case(size=[63, 300], mtu=[300])
def long_frames(cx, size, mtu):
    """A long frame between short ones, cut at a few places."""
    data = cx.bytes("long", size)
    short = cx.bytes("short", 2)
    stream = header(2) + short + header(size) + data + header(2) + short
    cut = cx.choice("cut", [3, 4, 6, 7, 9, 10, 11, 64, size + 9, size + 10,
                            size + 11, size + 15])
    proc = FrameProcessor()
    got = feed(proc, stream[:cut], mtu) + feed(proc, stream[cut:], mtu)
    cx.check(len(got) == 3, "every frame")
    cx.check(got[0] == short, "first")
    cx.check(got[1] == data, "long")
    cx.check(got[2] == short, "last")
