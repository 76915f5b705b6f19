"""C07: primitive encodings."""

import struct

from vtelem.classes.byte_buffer import ByteBuffer
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.enums.primitive import get_size

from vsym.api import case
from props.util import ALL, INTS, SIZE, SPEC, int_of, kind, value, wire

BOUNDS = {
    "quick": "all 11 types, every value of each; one write at any position "
    "0..6 of a buffer of 16 arbitrary bytes; sequences of 3 writes (11 type "
    "sequences) from an empty or preallocated buffer",
    "thorough": "as quick with all 1331 type triples and sequences of 5",
}
OUTSIDE = "byte orders other than the default network order"


@case(prim=ALL)
def place(cx, prim):
    """A write at any position disturbs nothing else and reads back."""
    data = cx.bytes("data", 16, mutable=True)
    before = list(data)
    pos = cx.pick("pos", 7)
    val = value(cx, "val", prim)
    buf = ByteBuffer(data, True, 16)
    one = TypePrimitive(prim)
    cx.check(one.set(val), "value of the type is accepted")
    cx.check(one.size() == SIZE[prim], "size")
    wrote = one.write(buf, pos)
    cx.check(wrote == SIZE[prim], "bytes written")
    cx.check(buf.get_pos() == 0, "position restored")
    after = list(buf.data)
    cx.check(len(after) == 16, "buffer keeps its length")
    cx.check(
        cx.all(
            after[i] == before[i]
            for i in range(16)
            if not pos <= i < pos + wrote
        ),
        "no other byte changes",
    )
    enc = buf.data[pos : pos + wrote]
    if kind(prim) == "int":
        cx.check(
            int_of(enc, SPEC[prim.name][2] < 0) == val,
            "big-endian encoding",
        )
    else:
        cx.check(enc == wire(prim, val), "big-endian encoding")
    two = TypePrimitive(prim)
    got = two.read(buf, pos)
    cx.check(got == val, "reads back equal")
    cx.check(two.get() == val, "reader holds the value")
    cx.check(one.buffer() == wire(prim, val), "standalone encoding")
    cx.observe("enc", enc)
    cx.observe("got", got)


@case(prim=ALL)
def decode_any(cx, prim):
    """Reading arbitrary bytes and writing the value gives the bytes."""
    size = SIZE[prim]
    raw = cx.bytes("raw", size)
    if prim.name == "BOOLEAN":
        cx.assume(raw[0] <= 1)
    one = TypePrimitive(prim)
    buf = ByteBuffer(bytearray(raw), True, size)
    cx.check(buf.can_read(prim), "can read")
    got = one.read(buf)
    cx.check(buf.remaining == 0, "advanced to the end")
    cx.check(cx.neg(buf.can_read(prim)), "nothing left to read")
    if kind(prim) == "float":
        cx.assume(got == got)  # not NaN: payload bits are not kept
        cx.check(got == struct.unpack(">" + SPEC[prim.name][4], raw)[0],
                 "big-endian float")
        return
    cx.check(
        int_of(list(raw), SPEC[prim.name][2] < 0) == got, "big-endian value"
    )
    out = ByteBuffer()
    out.write(prim, got)
    cx.check(out.data == raw, "same bytes again")
    cx.observe("got", got)


def sequence(cx, prims, start):
    """Writes one after the other."""
    vals = [value(cx, f"v{i}", p) for i, p in enumerate(prims)]
    buf = ByteBuffer(bytearray(start))
    total = 0
    for prim, val in zip(prims, vals):
        one = TypePrimitive(prim)
        cx.check(one.set(val), "accepted")
        num = one.write(buf)
        cx.check(num == SIZE[prim], "bytes written")
        total += SIZE[prim]
        cx.check(buf.get_pos() == total, "position advances")
        cx.check(buf.size == total, "size is the furthest byte written")
    expect = b"".join([wire(p, v) for p, v in zip(prims, vals)])
    cx.check(buf.data[0:total] == expect, "encodings follow one another")
    # overwriting the first leaves size alone
    first = TypePrimitive(prims[0])
    buf.set_pos(0)
    first.set(vals[0])
    first.write(buf)
    cx.check(buf.size == total, "overwriting does not grow the size")
    buf.set_pos(0)
    for prim, val in zip(prims, vals):
        cx.check(buf.can_read(prim), "readable")
        got = buf.read(prim)
        cx.check(got == val, "reads back in order")
        cx.observe("got", got)
    cx.check(buf.remaining == 0, "all read")


def triples():
    """Eleven type sequences in which each type is at each place."""
    num = len(ALL)
    return [
        (ALL[i], ALL[(i + 3) % num], ALL[(2 * i + 5) % num])
        for i in range(num)
    ]


def all_triples():
    """Every type triple."""
    return [(a, b, c) for a in ALL for b in ALL for c in ALL]


@case(
    quick={"prims": triples(), "start": [0, 9]},
    thorough={"prims": all_triples(), "start": [0, 9]},
)
def sequences(cx, prims, start):
    """Sequences of writes."""
    sequence(cx, prims, start)


@case(
    tiers="thorough",
    prims=[tuple(ALL[(i * k + k) % 11] for i in range(5)) for k in range(11)],
    start=[0, 3, 40],
)
def longer(cx, prims, start):
    """Longer sequences of writes."""
    sequence(cx, prims, start)


@case(num=[0, 1, 5], size=[0, 3])
def append(cx, num, size):
    """Appended bytes come right after the size, nothing else changes."""
    head = cx.bytes("head", size + 4, mutable=True)
    tail = cx.bytes("tail", num + 2)
    buf = ByteBuffer(bytearray(head), True, size)
    buf.set_pos(size)
    res = buf.append(tail, num)
    cx.check(res == num, "count")
    cx.check(buf.size == size + num, "size")
    cx.check(buf.data[0 : buf.size] == head[0:size] + tail[0:num], "content")
    cx.observe("data", bytes(buf.data))


@case(chunks=[(1, 2, 3), (4, 0, 1), (2, 2, 2)])
def chomp(cx, chunks):
    """Consuming reads return the front and keep the rest."""
    total = sum(chunks)
    data = cx.bytes("data", total)
    buf = ByteBuffer(bytearray())
    buf.append(data)
    out = b""
    for num in chunks:
        buf.set_pos(0)
        got = buf.read_bytes(num, True)
        cx.check(len(got) == num, "as many as asked")
        out = out + bytes(got)
        cx.check(buf.size == total - len(out), "remaining size")
    cx.check(out == data, "in order")


@case(prim=INTS)
def immutable(cx, prim):
    """A read-only buffer never changes."""
    data = cx.bytes("data", 8)
    buf = ByteBuffer(bytearray(data), False, 8)
    val = value(cx, "val", prim)
    cx.check(buf.write(prim, val) == 0, "nothing written")
    cx.check(buf.data == data, "unchanged")
    cx.check(get_size(prim) == SIZE[prim], "size of the type")
