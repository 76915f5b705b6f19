"""C14: enumerations."""

from enum import IntEnum

from vtelem.channel.group import ChannelGroup
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import FrameType, MessageType

from props.frames import drain
from vsym.api import case

BOUNDS = {
    "quick": "up to 3 entries with any integers in [-2, 300] and any two "
    "letter names of a..c and A..C; channels of enumerations with 3 entries "
    "of any values: 3 operations in any order, dispatched and decoded",
    "thorough": "4 entries, 5 operations",
}
OUTSIDE = "integers stored in an enumeration's channel as plain integers"
CAP = 255


def keys_of(cx, num, low=0, high=CAP):
    """Distinct integers."""
    keys = [cx.int(f"key{i}", low, high) for i in range(num)]
    for i in range(num):
        for j in range(i):
            cx.assume(keys[i] != keys[j])
    return keys


def letter(cx, name):
    """One letter, in either case."""
    return cx.choice(name, "abcABC")


@case(
    quick={"num": [1, 2, 3]},
    thorough={"num": [1, 2, 3, 4]},
    default=["none", "known", "other"],
    loaded=[False, True],
)
def mappings(cx, num, default, loaded):
    """Any mapping: one-to-one or refused."""
    keys = keys_of(cx, num, -2, 300)
    names = []
    for i in range(num):
        # symmetric in the order of the letters
        names.append(
            cx.choice(f"name{i}", ["a", "B"]) + cx.choice(f"end{i}", "cC")
        )
    text = {"none": None, "known": names[-1].lower(), "other": "zz"}[default]

    def build():
        """Build it from values, or from a description."""
        if not loaded:
            return user_enum("SomeEnum", dict(zip(keys, names)), text)
        lower = [x.lower() for x in names]
        return UserEnum(
            {
                "name": "some_enum",
                "mappings": dict(zip(keys, lower)),
                "default": text,
            }
        )

    ok, enum = cx.catch(build)
    lower = [x.lower() for x in names]
    good = cx.all([0 <= x for x in keys] + [x <= CAP for x in keys])
    if len(set(lower)) != num or default == "other":
        cx.check(not ok, "a mapping that isn't one-to-one is refused")
        return
    if not good:
        cx.check(not ok, "integers that don't fit are refused")
        return
    cx.check(ok, "a good mapping is accepted")
    cx.check(enum.name == "some_enum", "name")
    first = lower[0] if text is None else text
    cx.check(enum.default == first, "default")
    check_enum(cx, enum, keys, lower)


def check_enum(cx, enum, keys, lower):
    """Names and integers of an enumeration."""
    cx.check(sorted(enum) == sorted(lower), "its names")
    for key, name in zip(keys, lower):
        cx.check(enum.get_str(key) == name, "integer to name")
        cx.check(enum.get_value(name) == key, "name to integer")
        cx.check(enum.get_value(name.upper()) == key, "in any case")
        cx.check(enum.get_primitive(name).get() == key, "primitive")


@case()
def lookups(cx):
    """Looking up anything changes nothing."""
    keys = keys_of(cx, 2)
    enum = user_enum("e", dict(zip(keys, ("a", "b"))))
    same = user_enum("e", dict(zip(keys, ("a", "b"))))
    val = cx.int("value", -3, 300)
    ok, got = cx.catch(enum.get_str, val)
    if val == keys[0]:
        cx.check(ok and got == "a", "first")
    elif val == keys[1]:
        cx.check(ok and got == "b", "second")
    else:
        cx.check(not ok or got not in ("a", "b"), "no other value")
    name = letter(cx, "name")
    ok, got = cx.catch(enum.get_value, name)
    if name.lower() == "c":
        cx.check(not ok, "no such name")
        cx.check(not cx.catch(enum.get_primitive, name)[0], "no primitive")
    else:
        cx.check(got == keys["ab".index(name.lower())], "value")
    cx.check(sorted(enum) == ["a", "b"], "names stay")
    cx.check(enum == same, "the enumeration stays")
    cx.check(enum.default == "a", "default stays")


class Size(IntEnum):
    """An enumeration."""

    SMALL = 7
    LargeOne = 0
    HUGE = 255


class Bad(IntEnum):
    """One that doesn't fit."""

    SMALL = 0
    HUGE = 256


class Negative(IntEnum):
    """One that doesn't fit."""

    SMALL = -1


class Twice(IntEnum):
    """Names that differ in case only."""

    SMALL = 1
    small = 2


@case()
def classes(cx):
    """Enumerations from classes."""
    cls = cx.choice("class", [Size, FrameType, MessageType])
    enum = from_enum(cls)
    check_enum(
        cx,
        enum,
        [x.value for x in cls],
        [x.name.lower() for x in cls],
    )
    bad = cx.choice("bad", [Bad, Negative, Twice])
    cx.check(not cx.catch(from_enum, bad)[0], "refused")


class Holder:
    """An environment with a channel of an enumeration."""

    def __init__(self, cx, kind, initial, default):
        self.cx = cx
        self.keys = keys_of(cx, 3)
        self.names = ["a", "b", "c"]
        self.env = TelemetryEnvironment(
            256, 0.0, 1.0 if kind == "metric" else None, app_id_basis=0.5
        )
        enum = user_enum("e", dict(zip(self.keys, self.names)), default)
        self.env.add_enum(enum)
        self.kind = kind
        args = ("e", 1.0, False)
        init = None if initial is None else (initial, 0.0)
        name = "chan"
        if kind == "group":
            self.group = ChannelGroup("g", self.env)
            # a group gives its channels the default
            init = initial = None
            cx.check(self.group.add_enum_channel("chan", *args), "added")
            name = "g.chan"
        elif kind == "metric":
            self.env.add_enum_metric("chan", "e", True, init)
        else:
            self.env.add_enum_channel("chan", *args, init)
        self.num = self.env.channel_registry.get_id(name)
        self.name = name
        want = initial if initial is not None else default
        self.value = want.lower() if want is not None else "a"

    def store(self, what, name):
        """Set by name."""
        env = self.env
        good = name.lower() in self.names
        if what == "now":
            ok, got = self.cx.catch(env.set_enum_now, self.num, name)
        elif what == "metric":
            ok, got = self.cx.catch(env.set_enum_metric, "chan", name)
            got = True
        elif what == "group":
            ok, got = self.cx.catch(self.group.write, {"chan": name})
            got = True
        else:
            ok, got = self.cx.catch(env.command_enum_channel, self.name, name)
            if self.kind == "metric":
                # not commandable
                self.cx.check(not ok or got is False, "not commandable")
                return
        self.cx.check((ok and got) is good, "succeeds for its names only")
        if good:
            self.value = name.lower()

    def check(self):
        """The channel holds the expected value."""
        env = self.env
        key = self.keys[self.names.index(self.value)]
        self.cx.check(env.get_value(self.num) == key, "integer held")
        self.cx.check(env.get_enum_value(self.num) == self.value, "name held")
        self.cx.check(env.is_enum_channel(self.num), "known as one")
        if self.kind == "metric":
            self.cx.check(env.get_enum_metric("chan") == self.value, "metric")
        if self.kind == "group":
            self.cx.check(self.group.read() == {"chan": self.value}, "group")


@case(
    kind=["channel", "metric", "group"],
    initial=[None, "b", "C"],
    default=[None, "c"],
    quick={"steps": [2]},
    thorough={"steps": [4]},
    _max_paths=40000,
)
def channels(cx, kind, initial, default, steps):
    """A channel holds members only, however it is set."""
    if kind == "group" and initial is not None:
        return
    hold = Holder(cx, kind, initial, default)
    hold.check()
    ways = {
        "channel": ["now", "command"],
        "metric": ["now", "metric", "command"],
        "group": ["group", "now"],
    }
    for step in range(steps):
        what = cx.choice(f"op{step}", ways[kind])
        name = cx.choice(f"name{step}", ["a", "B", "c", "d"])
        hold.store(what, name)
        hold.check()


@case(initial=[None, "c"])
def travels(cx, initial):
    """The value is sent as its integer and has the same name there."""
    hold = Holder(cx, "channel", initial, None)
    name = cx.choice("name", ["a", "b", "c"])
    hold.store("now", name)
    env = hold.env
    other = hold.env.enum_registry.get_item(
        hold.env.enum_registry.get_id("e")
    )
    there = user_enum("e", {9: "z"}).load_str(other.json_str())
    env.dispatch(10.0)
    frames = drain(env.frame_queue)
    got = []
    for frame in frames:
        parsed = env.decode_frame(*frame.raw)
        if parsed.header.type is FrameType.DATA:
            got += parsed.body["channels"]
    got = [x for x in got if x["id"] == hold.num]
    cx.check(len(got) == 1, "sent once")
    cx.check(
        got[0]["value"] == hold.keys[hold.names.index(name)], "its integer"
    )
    cx.check(there.get_str(got[0]["value"]) == name, "the name there")


@case()
def unknown(cx):
    """Channels of unknown enumerations or initial values are refused."""
    env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
    env.add_enum(user_enum("e", {1: "a"}))
    count = env.channel_registry.count()
    enum = cx.choice("enum", ["e", "f"])
    init = cx.choice("initial", [None, ("a", 0.0), ("b", 0.0)])
    ok, num = cx.catch(env.add_enum_channel, "c", enum, 1.0, False, init)
    good = enum == "e" and init != ("b", 0.0)
    cx.check(ok is good, "accepted only with known ones")
    cx.check(env.channel_registry.count() == count + good, "registered")
    if good:
        cx.check(env.get_enum_value(num) == "a", "a member")
    plain = env.add_channel("plain", Primitive.UINT8, 1.0)
    cx.check(not env.is_enum_channel(plain), "a plain channel isn't one")
