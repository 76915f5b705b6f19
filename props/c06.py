"""C06: what a typed primitive accepts."""

from vtelem.classes.byte_buffer import ByteBuffer
from vtelem.classes.type_primitive import TypePrimitive

from vsym.api import case
from props.util import ALL, SPEC, SIZE, kind, value, wire

BOUNDS = {
    "both": "every type; integers in [-2**70, 2**70], every float incl. "
    "infinities and NaN, booleans, and values of other kinds; histories of "
    "two stores (any value after any accepted value), increments",
}
WRONG = {"text": "1", "none": None, "list": [1], "bytes": b"\x01"}


def candidate(cx, name, what):
    """Any value of a kind."""
    if what == "int":
        return cx.int(name, -(2**70), 2**70)
    if what == "bool":
        return cx.bool(name)
    if what == "float":
        return cx.float(name)
    return WRONG[what]


def acceptable(cx, prim, what, val):
    """The specification."""
    _, need, low, high, code = SPEC[prim.name]
    if need == "int":
        if what == "bool":
            return True
        if what != "int":
            return False
        return cx.all([low <= val, val <= high])
    if need == "bool":
        return what == "bool"
    if what != "float":
        return False
    if code == "d":
        return True
    # a single-precision float: everything that doesn't round to beyond it
    edge = float(2**128 - 2**103)
    inf = float("inf")
    return cx.any(
        [cx.all([-edge < val, val < edge]), val == inf, val == -inf,
         val != val]
    )


def agree(cx, left, right):
    """Equal, or both not a number."""
    return cx.any([left == right, cx.all([left != left, right != right])])


@case(prim=ALL, what=["int", "float", "bool", "text", "none", "list", "bytes"])
def store(cx, prim, what):
    """A store of anything after any accepted store."""
    calls = []

    def changed(prev, curr):
        calls.append((prev, curr))

    one = TypePrimitive(prim, changed)
    cx.check(one.get() == 0, "starts at the default")
    first = value(cx, "first", prim)
    time0 = cx.fix("t0", 3, 0, 2**20)
    cx.check(one.set(first, time0), "valid value accepted")
    del calls[:]
    val = candidate(cx, "val", what)
    time1 = cx.fix("t1", 3, 0, 2**20)
    ok = one.set(val, time1)
    want = acceptable(cx, prim, what, val)
    cx.check(cx.iff(ok, want), "accepted exactly when representable")
    cx.observe("ok", ok)
    if ok:
        cx.reach("accepted")
        cx.check(agree(cx, one.get(), val), "accepted value is visible")
        cx.check(one.last_set == time1, "change time")
        if first == val:
            cx.check(len(calls) == 0, "no handler without a change")
        else:
            cx.check(len(calls) == 1, "handler runs once per change")
            prev, curr = calls[0]
            cx.check(prev[0] == first, "handler gets the previous value")
            cx.check(prev[1] == time0, "handler gets the previous time")
            cx.check(agree(cx, curr[0], val), "handler gets the value")
            cx.check(curr[1] == time1, "handler gets the time")
        buf = ByteBuffer()
        fine, res = cx.catch(one.write, buf)
        cx.check(fine, "accepted value can be encoded")
        cx.check(res == SIZE[prim], "encoded size")
        fine, res = cx.catch(one.buffer)
        cx.check(fine, "accepted value can be sent")
    else:
        cx.reach("rejected")
        cx.check(len(calls) == 0, "no handler for a rejected store")
        cx.check(one.get() == first, "rejected store changes nothing")
        cx.check(one.last_set == time0, "rejected store keeps the time")
    cx.observe("value", one.get())


@case(prim=[x for x in ALL if kind(x) == "int"])
def increment(cx, prim):
    """An increment is a store of the sum."""
    one = TypePrimitive(prim)
    two = TypePrimitive(prim)
    first = value(cx, "first", prim)
    step = cx.int("step", -(2**66), 2**66)
    one.set(first)
    two.set(first)
    time = cx.fix("t", 3, 0, 2**20)
    ok1 = one.add(step, time)
    ok2 = two.set(first + step, time)
    cx.check(cx.iff(ok1, ok2), "same outcome as storing the sum")
    cx.check(one.get() == two.get(), "same value")
    cx.check(one.last_set == two.last_set, "same time")
    want = cx.all([SPEC[prim.name][2] <= first + step,
                   first + step <= SPEC[prim.name][3]])
    cx.check(cx.iff(ok1, want), "accepted exactly when it fits")
    cx.observe("value", one.get())


@case(prim=[x for x in ALL if kind(x) == "float"])
def increment_float(cx, prim):
    """An increment of a float is a store of the sum."""
    one = TypePrimitive(prim)
    first = cx.fix("first", 4, -(2**20), 2**20)
    step = cx.fix("step", 4, -(2**20), 2**20)
    cx.check(one.set(first), "accepted")
    cx.check(one.add(step), "increment accepted")
    cx.check(one.get() == first + step, "sum")
    cx.observe("value", one.get())


@case(prim=[x for x in ALL if SIZE[x] < 8 or kind(x) == "float"])
def equal(cx, prim):
    """Equal values make equal primitives, clearly different ones don't."""
    one, two = TypePrimitive(prim), TypePrimitive(prim)
    first = value(cx, "first", prim, True)
    second = value(cx, "second", prim, True)
    one.set(first)
    two.set(second)
    cx.check(cx.iff(one == two, first == second), "equality")


@case(prim=ALL)
def untimed(cx, prim):
    """A store without a time."""
    one = TypePrimitive(prim)
    first = value(cx, "first", prim)
    cx.check(one.set(first), "accepted")
    cx.check(one.get() == first, "visible")
    cx.check(one.last_set == 0, "no time")
    cx.check(one.buffer() == wire(prim, first), "encoding")
