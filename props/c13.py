"""C13: registries."""

import json

from vtelem.channel import Channel
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.enum_retry import EnumRegistry as NewEnumRegistry
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import TypeRegistry, get_default
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import FrameType

from props.util import SPEC
from vsym.api import case

P = Primitive
YIELD = True
BOUNDS = {
    "quick": "3 operations in any order (registering any name of two "
    "characters, looking up any name or integer id, describing after each), from an "
    "empty or filled registry of every kind; 3 registrations, look-ups and "
    "exports of enumerations in any order, with a type registry that knows "
    "any of their names already; 2 threads of 2 operations each, preempted "
    "once at any line",
    "thorough": "4 operations, 5 of enumerations; 2 preemptions",
}
OUTSIDE = "longer histories; ids that aren't integers"
NAMES = ["a", "b", "c"]


def new_channel(name, num):
    """A channel to register."""
    return Channel(name, [P.INT8, P.UINT32][num % 2], 0.5 * num)


def channel_text(item):
    """What the description tells of a channel."""
    size, _, low, _, _ = SPEC[item.type.name]
    return {
        "name": item.name,
        "rate": item.rate,
        "commandable": item.commandable,
        "type": {
            "name": item.type.name.lower(),
            "signed": low < 0,
            "size": size,
        },
    }


def new_enum(name, num):
    """An enumeration to register."""
    return user_enum(name, {num: "x", num + 1: "y"})


KINDS = {
    "generic": (lambda init: Registry("things", init), lambda n, i: [n, i]),
    "service": (ServiceRegistry, lambda n, i: [("host", i)]),
    "type": (TypeRegistry, lambda n, i: list(P)[i]),
    "channel": (
        lambda init: ChannelRegistry([x[1] for x in init]),
        new_channel,
    ),
    "enum": (lambda init: EnumRegistry([x[1] for x in init]), new_enum),
}
TITLES = {
    "generic": "things",
    "service": "services",
    "type": "types",
    "channel": "channels",
    "enum": "enums",
}


class Model:
    """What is registered."""

    def __init__(self, kind, initial):
        self.kind = kind
        self.names = []
        self.items = []
        make, self.new = KINDS[kind]
        init = []
        for num in range(initial):
            name = f"first{num}"
            item = self.new(name, num)
            init.append((name, item))
            self.names.append(name)
            self.items.append(item)
        self.registry = make(init)

    def add(self, cx, name):
        """Register something."""
        item = self.new(name, len(self.names))
        before = self.registry.describe()
        if self.kind == "channel":
            res = self.registry.add_channel(item)
        elif self.kind == "enum":
            res = self.registry.add_enum(item)
        else:
            res = self.registry.add(name, item)
        if any(name == x for x in self.names):
            cx.check(res[0] is False, "a known name is refused")
            cx.check(self.registry.describe() == before, "nothing changes")
        else:
            cx.check(res[0] is True, "a new name is registered")
            cx.check(res[1] == len(self.names), "with the next id")
            self.names.append(name)
            self.items.append(item)

    def lookup_id(self, cx, num):
        """Look an id up."""
        got = self.registry.get_item(num)
        if 0 <= num and num < len(self.items):
            for idx, item in enumerate(self.items):
                if num == idx:
                    cx.check(got is item, "item of the id")
        else:
            cx.check(got is None, "no item")

    def lookup_name(self, cx, name):
        """Look a name up."""
        got = self.registry.get_id(name)
        for idx, known in enumerate(self.names):
            if name == known:
                cx.check(got == idx, "id of the name")
                return
        cx.check(got is None, "no id")

    def check(self, cx, deep=True):
        """Everything that is registered is there, and nothing else."""
        reg = self.registry
        cx.check(reg.count() == len(self.names), "count")
        for idx, (name, item) in enumerate(zip(self.names, self.items)):
            cx.check(reg.get_id(name) == idx, "name to id")
            cx.check(reg.get_item(idx) is item, "id to item")
            if self.kind == "channel":
                cx.check(reg.get_channel_type(idx) is item.type, "type")
            if self.kind == "type":
                cx.check(reg.get_type(idx) is item, "type of an id")
            if self.kind == "enum":
                cx.check(reg.get_enum(item) == (True, idx), "enum id")
        if deep:
            self.describe(cx)

    def describe(self, cx):
        """The description is exact."""
        for indented in (False, True):
            data = json.loads(self.registry.describe(indented))
            items = data[TITLES[self.kind]]
            cx.check(
                sorted(items) == sorted(map(str, range(len(self.items)))),
                "ids described",
            )
            cx.check(
                data["mappings"]
                == {x: i for i, x in enumerate(self.names)},
                "names described",
            )
            for idx, item in enumerate(self.items):
                got = items[str(idx)]
                if self.kind == "generic":
                    cx.check(got == item, "item described")
                elif self.kind == "service":
                    cx.check(got == [["host", idx]], "service described")
                elif self.kind == "channel":
                    cx.check(got == channel_text(item), "channel described")
                elif self.kind == "type":
                    size, what, low, high, _ = SPEC[item.name]
                    want = {
                        "name": item.name.lower(),
                        "size": size,
                        "signed": low < 0 or what == "float",
                        "integer": what == "int",
                    }
                    if what == "int":
                        want.update({"min": low, "max": high})
                    cx.check(got == want, "type described")
                else:
                    cx.check(
                        got["mappings"] == {str(idx): "x", str(idx + 1): "y"},
                        "values described",
                    )
                    cx.check(got["name"] == item.name, "enum described")
                    cx.check(got["default"] == "x", "default described")


@case(
    kind=list(KINDS),
    initial=[0, 2],
    quick={"steps": [3]},
    thorough={"steps": [4]},
    _max_paths=60000,
)
def histories(cx, kind, initial, steps):
    """Any sequence of registrations and look-ups of any names and ids."""
    model = Model(kind, initial)
    model.check(cx)
    for step in range(steps):
        what = cx.choice(f"op{step}", ["add", "id", "name"])
        if what == "id":
            model.lookup_id(cx, cx.int(f"id{step}", -2, 70000))
            model.check(cx, step + 1 == steps)
            continue
        name = cx.choice(f"name{step}", NAMES[:2] + ["first1"])
        if what == "add":
            model.add(cx, name)
        else:
            model.lookup_name(cx, name)
        model.check(cx, step + 1 == steps)


@case(
    kind=["generic", "service"],
    quick={"size": [1, 2]},
    thorough={"size": [1, 2, 4]},
)
def names(cx, kind, size):
    """Any names at all."""
    registry = KINDS[kind][0]([])
    known = []
    for num in range(3):
        name = cx.text(f"name{num}", size)
        wanted = cx.text(f"look{num}", size)
        got = registry.get_id(wanted)
        hits = [i for i, x in enumerate(known) if x == wanted]
        cx.check(got == (hits[0] if hits else None), "look-up")
        res = registry.add(name, num)
        if any(name == x for x in known):
            cx.check(res[0] is False, "refused")
        else:
            cx.check(res == (True, len(known)), "registered")
            known.append(name)
        cx.check(registry.count() == len(known), "count")


@case()
def defaults(cx):
    """The known types are registered under their names."""
    types = get_default()
    cx.check(types.count() == len(SPEC), "count")
    seen = set()
    for prim in P:
        num = types.get_id(prim.name.lower())
        cx.check(num is not None, "every type")
        cx.check(types.get_type(num) is prim, "its own")
        seen.add(num)
    cx.check(seen == set(range(len(SPEC))), "every id once")
    num = cx.int("id", -3, 300)
    got = types.get_type(num)
    if 0 <= num and num < len(SPEC):
        cx.check(got is not None, "known")
    else:
        cx.check(got is None, "unknown")
    cx.check(types.count() == len(SPEC), "unchanged")


ENUM_OPS = ["add0", "add1", "export", "clash0", "clash1", "known"]


@case(
    quick={"steps": [4]},
    thorough={"steps": [5]},
    start=ENUM_OPS,
    _max_paths=60000,
)
def exported(cx, steps, start):
    """Enumerations are exported as types once, and never over others."""
    enums = [user_enum(x, {1: "x"}) for x in "ab"]
    reg = EnumRegistry()
    types = TypeRegistry([("first", P.BOOLEAN)])
    added = []
    mapped = {}
    clashing = set()
    others = 1
    before = None
    for step in range(steps):
        what = (
            start if not step else cx.choice(f"op{step}", ENUM_OPS)
        )
        if what.startswith("add"):
            enum = enums[int(what[3])]
            res = reg.add_enum(enum)
            if enum.name in added:
                cx.check(res[0] is False, "a known one is refused")
            else:
                cx.check(res == (True, len(added)), "next id")
                added.append(enum.name)
        elif what.startswith("clash"):
            # a type of that name that isn't the enumeration
            name = enums[int(what[5])].name
            res = types.add(name, P.INT8)
            known = name in mapped or name in clashing
            cx.check(res[0] is not known, "type registration")
            if not known:
                clashing.add(name)
                others += 1
        elif what == "known":
            before = reg.describe()
            for enum in enums:
                got = reg.get_enum(enum)
                if enum.name in added:
                    cx.check(got == (True, added.index(enum.name)), "known")
                else:
                    cx.check(got[0] is False, "unknown")
            cx.check(reg.describe() == before, "look-up changes nothing")
        else:
            before = json.loads(reg.describe())["global_mappings"]
            res = reg.export(types)
            good = True
            for name in added:
                if name in clashing:
                    good = False
                    break
                if name not in mapped:
                    mapped[name] = types.get_id(name)
            cx.check(res is good, "export succeeds unless a name is taken")
        # every exported one is a type of its own, and the other way round
        cx.check(types.count() == others + len(mapped), "types")
        text = json.loads(reg.describe())
        cx.check(
            text["global_mappings"]
            == {str(v): added.index(k) for k, v in mapped.items()},
            "exactly the exported ones are mapped",
        )
        for name, num in mapped.items():
            cx.check(types.get_type(num) is P.UINT8, "an enumeration's type")
        cx.check(
            text["mappings"] == {x: i for i, x in enumerate(added)}, "enums"
        )


@case(quick={"steps": [3]}, thorough={"steps": [5]})
def replacement(cx, steps):
    """The serializable registry of enumerations."""
    reg = NewEnumRegistry({"mappings": {}})
    enums = [user_enum(x, {i: "x", 7: "y"}) for i, x in enumerate("abc")]
    added = []
    for step in range(steps):
        enum = cx.choice(f"enum{step}", enums)
        if cx.bool(f"reload{step}"):
            reg = reg.load_str(reg.json_str())
        before = reg.json_str()
        ok, num = cx.catch(reg.add, enum)
        if any(x is enum for x in added):
            cx.check(not ok, "a known one is refused")
            cx.check(reg.json_str() == before, "nothing changes")
        else:
            cx.check(ok, "registered")
            cx.check(num == len(added), "next id")
            added.append(enum)
        for idx, one in enumerate(added):
            cx.check(reg.get_enum(idx) == one, "enumeration of the id")
        data = json.loads(reg.json_str())
        cx.check(
            data["mappings"] == {str(i): x.name for i, x in enumerate(added)},
            "described",
        )
        cx.check(sorted(data["enums"]) == sorted(x.name for x in added), "all")
    num = cx.int("id", -3, 10)
    ok, got = cx.catch(reg.get_enum, num)
    if 0 <= num and num < len(added):
        cx.check(ok, "found")
    else:
        cx.check(not ok, "not found")
    cx.check(len(json.loads(reg.json_str())["mappings"]) == len(added), "same")


@case(
    metrics=[None, 1.0],
    quick={"steps": [3]},
    thorough={"steps": [4]},
    _max_paths=60000,
)
def environment(cx, metrics, steps):
    """Channels, enumerations and groups of an environment."""
    env = TelemetryEnvironment(256, 0.0, metrics, app_id_basis=0.5)
    own = env.channel_registry.count()
    groups = ChannelGroupRegistry(env)
    enums = [user_enum(x, {0: "x"}) for x in ("e0", "e1")]
    taken = user_enum("int8", {0: "x"})
    base = env.enum_registry.count()
    types = env.type_registry.count()
    chans = []
    known = []
    named = []
    for step in range(steps):
        what = cx.choice(
            f"op{step}", ["channel", "enum", "enum channel", "group", "look"]
        )
        if what == "channel":
            name = cx.choice(f"name{step}", NAMES[:2])
            ok, num = cx.catch(env.add_channel, name, P.INT8, 1.0)
            add_one(cx, chans, name, ok, num, own)
        elif what == "enum":
            enum = cx.choice(f"enum{step}", enums + [taken])
            ok, num = cx.catch(env.add_enum, enum)
            cx.check(ok is (enum is not taken), "unless a type has the name")
            if enum is taken:
                cx.check(not env.has_enum(enum), "refused")
                continue
            if enum.name not in known:
                known.append(enum.name)
            cx.check(num == base + known.index(enum.name), "enum id")
            cx.check(env.has_enum(enum), "known now")
        elif what == "enum channel":
            name = cx.choice(f"name{step}", NAMES[:2])
            ok, num = cx.catch(env.add_enum_channel, name, "e0", 1.0)
            if "e0" not in known:
                cx.check(not ok, "the enumeration isn't known")
            else:
                add_one(cx, chans, name, ok, num, own)
        elif what == "group":
            name = cx.choice(f"name{step}", NAMES[:2])
            ok, num = cx.catch(groups.create_group, name)
            add_one(cx, named, name, ok, num, 0)
        else:
            num = cx.int(f"id{step}", 0, 50)
            env.is_enum_channel(num)
            env.has_channel("other")
            cx.check(not env.has_enum(user_enum("other", {0: "x"})), "other")
        cx.check(env.channel_registry.count() == own + len(chans), "channels")
        cx.check(groups.count() == len(named), "groups")
        cx.check(env.enum_registry.count() == base + len(known), "enums")
        cx.check(env.type_registry.count() == types + len(known), "types")
        if metrics is not None:
            for name, reg in (
                ("channel_count", env.channel_registry),
                ("enum_count", env.enum_registry),
                ("type_count", env.type_registry),
            ):
                cx.check(env.get_metric(name) == reg.count(), name)
        for idx, name in enumerate(chans, own):
            cx.check(env.channel_registry.get_id(name) == idx, "channel id")
            cx.check(env.has_channel(name), "known channel")
        for name in NAMES:
            cx.check(env.has_channel(name) == (name in chans), "channels")


def add_one(cx, known, name, ok, num, base):
    """Something was registered, or refused."""
    if name in known:
        cx.check(not ok, "a known name is refused")
        return
    cx.check(ok, "a new name is registered")
    cx.check(num == base + len(known), "with the next id")
    known.append(name)


@case()
def frame_types(cx):
    """The wire types keep their values."""
    env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
    num = env.enum_registry.get_id("frame_type")
    enum = env.enum_registry.get_item(num)
    one = cx.choice("type", list(FrameType))
    cx.check(enum.get_value(one.name) == one.value, "value")
    cx.check(enum.get_str(one.value) == one.name.lower(), "name")


@case(
    kind=list(KINDS),
    quick={"preempt": [1]},
    thorough={"preempt": [1, 2]},
    _max_paths=60000,
)
def threads(cx, kind, preempt):
    """Names registered by two threads at a time."""
    model = Model(kind, 1)
    reg, new = model.registry, model.new
    same = cx.bool("same")
    results = []

    def add(name, num):
        item = new(name, num)
        if kind == "channel":
            res = reg.add_channel(item)
        elif kind == "enum":
            res = reg.add_enum(item)
        else:
            res = reg.add(name, item)
        results.append((name, item, res))
        if res[0]:
            cx.check(reg.get_id(name) == res[1], "its id, at once")
            cx.check(reg.get_item(res[1]) is item, "its item, at once")

    def look():
        text = json.loads(reg.describe())
        names, items = text["mappings"], text[TITLES[kind]]
        cx.check(
            sorted(map(str, names.values())) == sorted(items),
            "a description of one moment",
        )

    second = cx.choice("second", ["add", "look"])
    tasks = [lambda: add("a", 1)]
    if second == "add":
        tasks.append(lambda: add("a" if same else "b", 2))
    else:
        tasks.append(look)
    cx.tasks(*tasks, preempt=preempt)
    for name, item, res in results:
        if res[0]:
            cx.check(name not in model.names, "registered once")
            model.names.append(name)
    # in the order of their ids
    kept = sorted(
        [x for x in results if x[2][0]], key=lambda x: x[2][1]
    )
    model.names = ["first0"] + [x[0] for x in kept]
    model.items = model.items + [x[1] for x in kept]
    want = 2 if second == "look" or same else 3
    cx.check(len(model.names) == want, "every name")
    # how some items are described depends on who was first
    model.check(cx, kind not in ("service", "enum"))
