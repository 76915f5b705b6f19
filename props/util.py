"""Shared by the harnesses: the independent description of the wire types."""

import struct

from vtelem.enums.primitive import Primitive

# name: (size, kind, low, high), written down independently of the code
SPEC = {
    "BOOLEAN": (1, "bool", 0, 1, "?"),
    "INT8": (1, "int", -(2**7), 2**7 - 1, "b"),
    "UINT8": (1, "int", 0, 2**8 - 1, "B"),
    "INT16": (2, "int", -(2**15), 2**15 - 1, "h"),
    "UINT16": (2, "int", 0, 2**16 - 1, "H"),
    "INT32": (4, "int", -(2**31), 2**31 - 1, "i"),
    "UINT32": (4, "int", 0, 2**32 - 1, "I"),
    "INT64": (8, "int", -(2**63), 2**63 - 1, "q"),
    "UINT64": (8, "int", 0, 2**64 - 1, "Q"),
    "FLOAT": (4, "float", 0, 0, "f"),
    "DOUBLE": (8, "float", 0, 0, "d"),
}
ALL = [Primitive[x] for x in SPEC]
INTS = [Primitive[x] for x in SPEC if SPEC[x][1] == "int"]
SIZE = {Primitive[x]: SPEC[x][0] for x in SPEC}


def kind(prim):
    """bool, int or float"""
    return SPEC[prim.name][1]


def value(cx, name, prim, fixed=False):
    """Any value of a type that has an exact encoding."""
    _, what, low, high, _ = SPEC[prim.name]
    if what == "bool":
        return cx.bool(name)
    if what == "int":
        return cx.int(name, low, high)
    if fixed:
        return cx.fix(name, 3, -(2**17), 2**17)
    val = cx.float(name, finite=True)
    if prim is Primitive.FLOAT:
        ok, data = cx.catch(struct.pack, ">f", val)
        cx.assume(ok)
        back = struct.unpack(">f", data)[0]
        cx.assume(back == val)
        return val
    return val


def int_of(data, signed):
    """Big-endian integer of bytes, written out."""
    total = 0
    for byte in data:
        total = total * 256 + byte
    if signed and len(data):
        half = 256 ** len(data) // 2
        if total >= half:
            total = total - 256 ** len(data)
    return total


def wire(prim, val):
    """Expected encoding of a value."""
    size, what, low, _, code = SPEC[prim.name]
    if what == "bool":
        return struct.pack(">?", val)
    if what == "float":
        return struct.pack(">" + code, val)
    return val.to_bytes(size, "big", signed=low < 0)
