"""C27: groups of channels."""

from vtelem.channel.group import ChannelGroup
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from props.c06 import acceptable, agree
from props.frames import drain
from props.util import kind, value
from vsym.api import case

YIELD = True

BOUNDS = {
    "both": "groups of up to 3 channels of any type, every value of each; all "
    "sets of members written; values of wrong types",
    "quick": "2 threads that read, write, change, add or dispatch, preempted "
    "once at any statement",
    "thorough": "2 preemptions; 3 threads preempted once",
}
OUTSIDE = (
    "two users that change the same member of a group inside of contexts that "
    "overlap (the later one to leave decides its value)"
)
BUDGET = {"quick": 250}

TYPES = [
    Primitive.UINT8,
    Primitive.INT64,
    Primitive.FLOAT,
    Primitive.DOUBLE,
    Primitive.BOOLEAN,
]
NAMES = ["x", "y", "z"]
ENUM = {1: "x", 2: "y", 7: "z"}


class Bench:
    """An environment with a group."""

    def __init__(self, cx, types, registry=False):
        self.cx = cx
        self.env = TelemetryEnvironment(512, 1.0, None, app_id_basis=0.5)
        self.env.add_enum(user_enum("e", ENUM))
        self.lone = self.env.add_channel("lone", Primitive.INT32, 1.0)
        self.groups = ChannelGroupRegistry(self.env)
        if registry:
            self.num = self.groups.create_group("g")
            self.group = self.groups.get_item(self.num)
        else:
            self.group = ChannelGroup("g", self.env)
        self.types = {}
        for idx, prim in enumerate(types):
            name = f"m{idx}"
            if prim == "enum":
                res = self.group.add_enum_channel(name, "e", 1.0, True)
            else:
                res = self.group.add_channel(name, prim, 1.0, True)
            cx.check(res, "a member is added")
            self.types[name] = prim
        self.chans = {
            name: self.env.channel_registry.get_item(
                self.env.channel_registry.get_id("g." + name)
            )
            for name in self.types
        }

    def state(self):
        """Values and times of the members."""
        return {
            name: (chan.get(), chan.last_set)
            for name, chan in self.chans.items()
        }

    def any_value(self, label, name):
        """Any acceptable value of a member, as given and as stored."""
        prim = self.types[name]
        if prim == "enum":
            num = self.cx.choice(label, sorted(ENUM))
            return ENUM[num], num
        val = value(self.cx, label, prim, True)
        return val, val

    def expect(self, want):
        """Compare with the expected state."""
        got = self.state()
        for name, (val, when) in want.items():
            self.cx.check(agree(self.cx, got[name][0], val), "its value")
            self.cx.check(got[name][1] == when, "its time")

    def check_read(self, want):
        """A read gives everything."""
        got = self.group.read()
        self.cx.check(list(got) == list(self.types), "members read")
        for name, val in got.items():
            goal = want[name][0]
            if self.types[name] == "enum":
                goal = ENUM[goal]
            self.cx.check(agree(self.cx, val, goal), "a value read")


@case(
    one=TYPES + ["enum"],
    two=[Primitive.INT16, Primitive.DOUBLE, "enum"],
    quick={"second": [2]},
    thorough={"second": [5]},
)
def commits(cx, one, two, second):
    """Any members are written, directly or in a context."""
    bench = Bench(cx, [one, two, Primitive.BOOLEAN], True)
    want = {name: (bench.chans[name].get(), 1.0) for name in bench.types}
    bench.expect(want)
    for step in range(2):
        time = 2.0 + step
        bench.env.set_time(time)
        values = {}
        todo = cx.choice(
            f"write{step}",
            [["m0"], ["m2", "m1", "m0"], ["m1"], ["m2", "m0"], []][
                : second if step else 5
            ],
        )
        for name in todo:
            given, val = bench.any_value(f"{name}.{step}", name)
            values[name] = (given, val)
        if cx.bool(f"context{step}"):
            cx.reach("in a context")
            with bench.groups.group(bench.num) as data:
                cx.check(
                    sorted(data) == sorted(bench.types), "members given"
                )
                bench.env.set_time(time + 0.5)
                for name, (given, val) in values.items():
                    data[name] = given
            time += 0.5
            for name, (given, val) in values.items():
                # a member that's as it was isn't written
                if want[name][0] != val:
                    want[name] = (val, time)
                else:
                    want[name] = (val, bench.chans[name].last_set)
        else:
            bench.group.write({x: y[0] for x, y in values.items()})
            for name, (given, val) in values.items():
                want[name] = (val, time)
        bench.expect(want)
        bench.check_read(want)
    cx.check(
        bench.env.channel_registry.get_item(bench.lone).last_set == 0.0,
        "no other channel changes",
    )
    names = [x[0] for x in bench.env.event_queue.consume()]
    cx.check(
        all(x in ("g.m0", "g.m1", "g.m2") for x in names), "events of members"
    )


@case(prim=TYPES, what=["int", "float", "bool", "text", "none"])
def refused(cx, prim, what):
    """A value that can't be stored."""
    bench = Bench(cx, [Primitive.UINT8, prim, Primitive.UINT8])
    if what == "int":
        val = cx.int("value", -(2**70), 2**70)
    elif what == "float":
        val = cx.float("value")
    elif what == "bool":
        val = cx.bool("value")
    else:
        val = {"text": "5", "none": None}[what]
    bench.env.set_time(4.0)
    first, last = value(cx, "first", Primitive.UINT8), value(
        cx, "last", Primitive.UINT8
    )
    bench.group.write({"m0": first, "m1": val, "m2": last})
    old = bench.chans["m1"].get()
    want = {"m0": (first, 4.0), "m2": (last, 4.0)}
    if acceptable(cx, prim, what, val):
        want["m1"] = (val, 4.0)
    elif kind(prim) == "bool":
        want["m1"] = (False, 1.0)
    else:
        want["m1"] = (0, 1.0)
    cx.check(agree(cx, old, want["m1"][0]), "its value")
    bench.expect(want)


class Oops(Exception):
    """An error in a context."""


@case(how=["name", "enum", "enum kind", "raise", "deleted", "outside"])
def faults(cx, how):
    """A write that can't be done, and contexts that fail."""
    bench = Bench(cx, [Primitive.UINT8, "enum", Primitive.UINT8])
    bench.env.set_time(4.0)
    before = bench.state()
    first, last = value(cx, "first", Primitive.UINT8), value(
        cx, "last", Primitive.UINT8
    )
    if how in ("name", "enum", "enum kind"):
        bad = {
            "name": ("nothing", 1),
            "enum": ("m1", "nothing"),
            "enum kind": ("m1", 2),
        }[how]
        items = [("m0", first), ("m2", last)]
        items.insert(cx.pick("at", 3), bad)
        if cx.bool("context"):

            def use():
                with bench.group.data() as data:
                    data.update(dict(items))

            good, _ = cx.catch(use)
        else:
            good, _ = cx.catch(lambda: bench.group.write(dict(items)))
        cx.check(not good, "refused")
        bench.expect(before)
        return
    if how == "raise":

        def use():
            with bench.group.data() as data:
                data["m0"] = first
                raise Oops()

        good, exc = cx.catch(use)
        cx.check(not good and isinstance(exc, Oops), "the error of the user")
        cx.check(bench.chans["m2"].last_set == 1.0, "not written")
    elif how == "deleted":
        with bench.group.data() as data:
            data["m0"] = first
            del data["m2"]
        want = dict(before)
        cx.check(bench.chans["m0"].get() == first, "its value")
        del want["m0"]
        bench.expect(want)
    else:
        # somebody else sets members meanwhile
        with bench.group.data() as data:
            bench.env.command_channel("g.m2", last)
            bench.env.command_enum_channel("g.m1", "z")
            cx.check(data["m2"] == 0, "values of one moment")
            data["m0"] = first
        bench.expect({"m1": (7, 4.0), "m2": (last, 4.0)})
        cx.check(bench.chans["m0"].get() == first, "its value")
    cx.check(cx.free_locks(), "unlocked")
    bench.group.write({"m0": 9})
    cx.check(bench.chans["m0"].get() == 9, "still works")


@case(seq=["a", "b"])
def members(cx, seq):
    """Groups and members are told apart by their names."""
    env = TelemetryEnvironment(512, 1.0, None, app_id_basis=0.5)
    env.add_enum(user_enum("e", ENUM, "y"))
    groups = ChannelGroupRegistry(env)
    nums = {}
    for name in ("a", "b"):
        nums[name] = groups.create_group(name)
        cx.check(
            not cx.catch(lambda name=name: groups.create_group(name))[0],
            "known once",
        )
    have = {"a": [], "b": []}
    for idx in range(3):
        group = cx.choice(f"group{idx}", ["a", "b"]) if idx else seq
        name = cx.choice(f"name{idx}", ["x", "y"])
        inst = groups.get_item(nums[group])
        what = cx.choice(f"what{idx}", ["plain", "enum", "no enum"])
        if what == "plain":
            res = inst.add_channel(name, Primitive.INT32, 1.0)
        elif what == "enum":
            res = inst.add_enum_channel(name, "e", 1.0)
        else:
            res = inst.add_enum_channel(name, "nothing", 1.0)
        new = name not in dict(have[group])
        cx.check(res == (new and what != "no enum"), "added once")
        if res:
            have[group].append((name, 0 if what == "plain" else "y"))
    for group, names in have.items():
        with groups.group(nums[group]) as data:
            cx.check(data == dict(names), "members of this group")
            for name, val in names:
                data[name] = 5 if val == 0 else "z"
        for other in have:
            for name, val in have[other]:
                got = env.get_value(
                    env.channel_registry.get_id(f"{other}.{name}")
                )
                done = other <= group
                want = (5 if done else 0) if val == 0 else (7 if done else 2)
                cx.check(got == want, "only this group")


class Recorder:
    """Stands for a data frame: what it holds is what matters here."""

    def __init__(self):
        self.items = []
        self.finalized = False

    def add(self, num, _, val):
        """Add an element."""
        self.items.append((num, val))
        return True

    def finalize(self, *_):
        """It's complete."""
        self.finalized = True


def frame_values(bench, frames):
    """Values of the members in frames, by name."""
    ids = {
        bench.env.channel_registry.get_id("g." + name): name
        for name in bench.types
    }
    return {
        ids[num]: val for frame in frames for num, val in frame.items
    }


WHO = [
    "write", "context", "read", "dispatch", "time", "add", "command", "write2"
]


def together(cx, tasks, limit, **kwargs):
    """What some users do at the same time."""
    bench = Bench(cx, [Primitive.UINT8, "enum", Primitive.UINT8])
    bench.env.set_time(4.0)
    bench.env.set_channel_rate(bench.lone, 1000.0)
    cx.patch(
        bench.env.framer, "new_data_frame", lambda *_, **__: Recorder()
    )
    seen = []
    # states that exist at some moment
    first, second = (11, "x", 12), (21, "z", 22)
    start = (0, "x", 0)

    def put(vals):
        bench.group.write({"m0": vals[0], "m1": vals[1], "m2": vals[2]})

    def see(vals):
        seen.append((vals["m0"], vals["m1"], vals["m2"]))

    def context():
        with bench.group.data() as data:
            see(data)
            data["m2"] += 100

    def read():
        see(bench.group.read())

    def dispatch():
        bench.env.dispatch_data(50.0)
        seen_frames.extend(drain(bench.env.frame_queue))

    def set_time():
        bench.env.set_time(5.0)

    def add():
        cx.check(
            bench.group.add_channel("new", Primitive.UINT8, 1.0), "added"
        )

    def command():
        cx.check(bench.env.command_channel("g.m0", 99), "commanded")

    seen_frames = []
    jobs = {
        "write": lambda: put(first),
        "write2": lambda: put(second),
        "context": context,
        "read": read,
        "dispatch": dispatch,
        "time": set_time,
        "add": add,
        "command": command,
    }
    cx.tasks(*[jobs[x] for x in tasks], preempt=limit, **kwargs)
    cx.check(cx.free_locks(), "unlocked")

    # what's seen is a moment between the operations
    base = [start]
    if "write" in tasks:
        base.append(first)
    if "write2" in tasks:
        base.append(second)
    moments = set()
    for vals in base:
        variants = {vals}
        if "context" in tasks:
            # it adds to what it has read before
            for other in base:
                for num in range(1, tasks.count("context") + 1):
                    variants.add((vals[0], vals[1], other[2] + 100 * num))
        for val in variants:
            moments.add(val)
            if "command" in tasks:
                moments.add((99,) + val[1:])
    for vals in seen:
        cx.check(vals in moments, "a moment between operations")
    if seen_frames:
        got = frame_values(bench, seen_frames)
        vals = (got["m0"], got["m1"], got["m2"])
        cx.check(
            vals in {(x, {"x": 1, "y": 2, "z": 7}[y], z) for x, y, z in moments},
            "a moment between operations",
        )
    final = bench.group.read()
    vals = (final["m0"], final["m1"], final["m2"])
    cx.check(vals in moments, "nothing is half done")
    if "write" in tasks or "write2" in tasks:
        cx.check(vals[:2] != start[:2], "nothing is lost")
    if "command" in tasks and not {"write", "write2"} & set(tasks):
        cx.check(vals[0] == 99, "nothing is lost")
    if "context" in tasks:
        cx.check(
            vals[2] >= 100 or "write" in tasks or "write2" in tasks,
            "nothing is lost",
        )
    if "add" in tasks:
        cx.check(final.get("new") == 0, "a member since then")
    # written with one time
    if set(tasks) & {"write", "write2"} and not (
        {"context", "command"} & set(tasks)
    ):
        cx.check(
            len({x.last_set for x in bench.chans.values()}) == 1, "one time"
        )


@case(
    one=["write", "context", "read"],
    two=WHO,
    quick={"limit": [1]},
    thorough={"limit": [2]},
    _max_paths=20000,
    _weight=2,
)
def users(cx, one, two, limit):
    """Two users."""
    together(cx, [one, two], limit)


@case(
    three=["command", "read", "dispatch", "context", "time"],
    thorough={"limit": [1]},
    quick={"limit": []},
    _max_paths=20000,
)
def crowds(cx, three, limit):
    """Three users."""
    together(cx, ["write", "write2", three], limit)
