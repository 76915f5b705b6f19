"""C17: commands of channels."""

from vtelem.classes.user_enum import user_enum
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories.telemetry_environment import create_channel_commander
from vtelem.telemetry.environment import TelemetryEnvironment

from props.c06 import acceptable, agree
from props.util import ALL, SPEC, kind, value
from vsym.api import case

BOUNDS = {
    "both": "any value and any previous value of each type (integers within "
    "2**70, every float; multiples of 1/8 for increments of floats) and "
    "values of other kinds; every way of naming a channel out of 13",
    "quick": "2 commands in a row",
    "thorough": "3 commands in a row",
}
OUTSIDE = "identifiers given as booleans or floats that equal an integer"

WRONG = {"text": "5", "none": None, "list": [1], "dict": {"a": 1}}


class Bench:
    """An environment whose channels can be commanded."""

    def __init__(self, cx, prim, commandable=True):
        self.cx = cx
        self.env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
        env = self.env
        env.add_enum(user_enum("e", {1: "x", 2: "y", 7: "z"}))
        self.names = {}
        self.names["before"] = env.add_channel("before", Primitive.UINT8, 1.0)
        self.is_enum = prim == "enum"
        if self.is_enum:
            self.target = env.add_enum_channel(
                "target", "e", 1.0, False, ("y", 0.0), commandable
            )
            self.old = 2
        else:
            self.target = env.add_channel(
                "target", prim, 1.0, False, None, commandable
            )
            self.old = 0
        self.names["target"] = self.target
        self.names["after"] = env.add_channel("after", Primitive.INT32, 1.0)
        self.names["enum"] = env.add_enum_channel("enum", "e", 1.0)
        self.names["flag"] = env.add_channel("flag", Primitive.BOOLEAN, 1.0)
        env.set_time(5.0)
        env.set_now(self.names["after"], -3)
        self.daemon = CommandQueueDaemon("cmd")
        self.results = []
        create_channel_commander(
            env, self.daemon, lambda *x: self.results.append(x)
        )
        self.daemon.start()
        cx.world.idle()

    def store(self, val):
        """Set the target."""
        self.env.set_now(self.target, val)
        self.old = val

    def state(self):
        """Everything that a command may change."""
        res = {}
        for name, num in self.names.items():
            chan = self.env.channel_registry.get_item(num)
            res[name] = (chan.get(), chan.last_set, chan.rate)
        return res

    def command(self, data, time=9.0):
        """Run a command, return its result and the state around it."""
        cx = self.cx
        before = self.state()
        self.env.set_time(time)
        replies = []
        self.daemon.enqueue(
            {"command": "channel", "data": data},
            lambda *x: replies.append(x),
        )
        cx.world.idle()
        cx.check(len(replies) == 1, "one reply")
        cx.check(len(self.results) == 1, "one result")
        cx.check(self.results.pop()[0] == replies[0][0], "the same result")
        return replies[0], before, self.state()

    def unchanged(self, before, after, *but):
        """Nothing else changed."""
        for name in before:
            if name not in but:
                self.cx.check(
                    agree(self.cx, before[name][0], after[name][0]),
                    "no other channel changes",
                )
                self.cx.check(
                    before[name][1:] == after[name][1:],
                    "no other channel changes",
                )


@case(
    prim=ALL,
    what=["int", "float", "bool", "text", "none", "list", "dict", "missing"],
    _max_paths=5000,
)
def stores(cx, prim, what):
    """A value is set."""
    commandable = cx.bool("commandable")
    bench = Bench(cx, prim, commandable)
    old = value(cx, "old", prim, True)
    bench.store(old)
    data = {"operation": "set", "channel_name": "target"}
    if what == "int":
        data["value"] = cx.int("value", -(2**70), 2**70)
    elif what == "bool":
        data["value"] = cx.bool("value")
    elif what == "float":
        data["value"] = cx.float("value")
    elif what != "missing":
        data["value"] = WRONG[what]
    (good, _), before, after = bench.command(data)
    want = what != "missing" and cx.all(
        [commandable, acceptable(cx, prim, what, data["value"])]
    )
    cx.check(cx.iff(good, want), "succeeds if the value is acceptable")
    got, when, _ = after["target"]
    if good:
        cx.reach("set")
        cx.check(agree(cx, got, data["value"]), "value as asked")
        cx.check(when == 9.0, "changed now")
        bench.unchanged(before, after, "target")
    else:
        bench.unchanged(before, after)


@case(
    prim=ALL,
    oper=["increment", "decrement"],
    what=["int", "float", "bool", "text", "none", "list", "missing"],
    _max_paths=5000,
)
def steps(cx, prim, oper, what):
    """A value is incremented or decremented."""
    commandable = cx.bool("commandable")
    bench = Bench(cx, prim, commandable)
    if what == "float" and kind(prim) == "int":
        low, high = SPEC[prim.name][2:4]
        old = cx.int("old", max(low, -(2**40)), min(high, 2**50))
    else:
        old = value(cx, "old", prim, True)
    bench.store(old)
    data = {"operation": oper, "channel_id": bench.target}
    step = 1
    if what == "int":
        step = cx.int("value", -(2**40), 2**40)
    elif what == "bool":
        step = cx.bool("value")
    elif what == "float":
        step = cx.fix("value", 3, -(2**20), 2**20)
    if what in ("int", "bool", "float"):
        data["value"] = step
    elif what != "missing":
        data["value"] = WRONG[what]
    (good, _), before, after = bench.command(data)
    got, when, _ = after["target"]
    possible = what in ("int", "bool", "float", "missing")
    if kind(prim) == "bool" or what == "float" and kind(prim) == "int":
        possible = False
    if not possible:
        want = False
    else:
        if what == "bool":
            step = 1 if step else 0
        new = old + step if oper == "increment" else old - step
        want = commandable
        if kind(prim) == "int":
            want = cx.all([commandable, acceptable(cx, prim, "int", new)])
    cx.check(cx.iff(good, want), "succeeds if the result is acceptable")
    if good:
        cx.reach("changed")
        cx.check(got == new, "value as asked")
        cx.check(when == 9.0, "changed now")
        bench.unchanged(before, after, "target")
    else:
        bench.unchanged(before, after)


@case(oper=["set", "get", "increment", "decrement"])
def enums(cx, oper):
    """A channel of an enumeration."""
    commandable = cx.bool("commandable")
    bench = Bench(cx, "enum", commandable)
    data = {"operation": oper, "channel_name": "target"}
    val = cx.choice(
        "value", ["x", "Z", "z", "y", "w", "", 1, 2, None, ["x"], "missing"]
    )
    if val != "missing":
        data["value"] = val
    (good, message), before, after = bench.command(data)
    names = {"x": 1, "z": 7, "Z": 7, "y": 2}
    if oper == "get":
        cx.check(good and message == "y", "its value")
        bench.unchanged(before, after)
    elif (
        oper == "set" and commandable and isinstance(val, str) and val in names
    ):
        cx.check(good, "succeeds if the value is acceptable")
        cx.check(after["target"][:2] == (names[val], 9.0), "value as asked")
        bench.unchanged(before, after, "target")
    else:
        cx.check(not good, "succeeds if the value is acceptable")
        bench.unchanged(before, after)
    # what's acceptable doesn't depend on what was asked before
    data = {"operation": "set", "channel_name": "enum", "value": val}
    (good, _), before, after = bench.command(data)
    if isinstance(val, str) and val in names:
        cx.check(good, "succeeds if the value is acceptable")
        cx.check(after["enum"][0] == names[val], "value as asked")
        bench.unchanged(before, after, "enum")
    else:
        cx.check(not good, "succeeds if the value is acceptable")
        bench.unchanged(before, after)


@case(
    how=[
        "name", "id", "both", "mismatch", "unknown name", "any id", "none",
        "odd name", "odd id", "name of nothing", "none id", "both unknown",
        "case",
    ],
)
def addresses(cx, how):
    """Ways to name a channel."""
    bench = Bench(cx, Primitive.INT16)
    bench.store(cx.choice("old", [-5, 100]))
    target = bench.target
    num = None
    data = {}
    if how in ("name", "both", "mismatch", "none id"):
        data["channel_name"] = "target"
    if how in ("id", "both"):
        data["channel_id"] = target
    if how == "mismatch":
        num = cx.int("id", -3, 10)
        data["channel_id"] = num
    elif how == "any id":
        num = cx.int("id", -3, 10)
        data["channel_id"] = num
    elif how == "unknown name":
        data["channel_name"] = "nowhere"
    elif how == "both unknown":
        data["channel_name"] = "nowhere"
        data["channel_id"] = target
    elif how == "odd name":
        data["channel_name"] = cx.choice("odd", [None, 5, ["target"], ""])
    elif how == "odd id":
        data["channel_id"] = cx.choice(
            "odd", [None, "2", [target], {}, "target", 2**70]
        )
    elif how == "none id":
        data["channel_id"] = None
    elif how == "case":
        data["channel_name"] = "TARGET"
    oper = cx.choice(
        "operation",
        ["set", "get", "increment", "decrement", "SET", "", None, ["set"],
         "missing"],
    )
    if oper != "missing":
        data["operation"] = oper
    data["value"] = 7
    (good, message), before, after = bench.command(data)
    hit = None
    if how in ("name", "id", "both"):
        hit = "target"
    elif how == "mismatch":
        if num == target:
            hit = "target"
    elif how == "any id":
        for name, other in bench.names.items():
            if num == other:
                hit = name
    known = isinstance(oper, str) and oper in (
        "set", "get", "increment", "decrement"
    )
    if hit is None or not known:
        cx.check(not good, "refused")
        bench.unchanged(before, after)
        return
    val = before[hit][0]
    if oper == "get":
        cx.check(good, "its value")
        if hit == "target":
            cx.check(message == str(bench.old), "its value")
        bench.unchanged(before, after)
        return
    new = {"set": 7, "increment": val + 7, "decrement": val - 7}[oper]
    want = hit in ("before", "target", "after")
    if hit == "before" and oper == "decrement":
        want = False
    cx.check(good == want, "succeeds if the value is acceptable")
    if want:
        cx.check(after[hit][:2] == (new, 9.0), "value as asked")
        bench.unchanged(before, after, hit)
    else:
        bench.unchanged(before, after)


@case(
    prim=[Primitive.INT8, Primitive.UINT32, Primitive.DOUBLE],
    quick={"num": [2]},
    thorough={"num": [3]},
    _max_paths=20000,
)
def rows(cx, prim, num):
    """Commands in a row."""
    bench = Bench(cx, prim)
    old = 0
    whole = kind(prim) == "int"
    for idx in range(num):
        oper = cx.choice(f"op{idx}", ["set", "increment", "decrement"])
        if whole:
            val = cx.int(f"value{idx}", -(2**34), 2**34)
        else:
            val = cx.fix(f"value{idx}", 3, -(2**20), 2**20)
        new = {"set": val, "increment": old + val, "decrement": old - val}[oper]
        (good, _), before, after = bench.command(
            {"operation": oper, "channel_name": "target", "value": val},
            10.0 + idx,
        )
        want = acceptable(cx, prim, "int", new) if whole else True
        cx.check(cx.iff(good, want), "succeeds if the value is acceptable")
        if good:
            old = new
        cx.check(after["target"][0] == old, "value as asked")
        bench.unchanged(before, after, "target")
    cx.check(bench.daemon.stop(), "the service goes on")
