"""C30: concurrent use."""

import itertools
import json

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.event_queue import EventQueue
from vtelem.classes.metered_queue import MeteredQueue
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.classes.user_enum import user_enum
from vtelem.daemon import DaemonBase
from vtelem.enums.primitive import Primitive
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.service import ServiceRegistry
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym import core
from vsym.api import case

from props.frames import drain

YIELD = True

BOUNDS = {
    "quick": "any 2 of 11 (with metrics) or 16 (without) operations at the "
    "same time, preempted once at any statement; 2 counters; "
    "2 triples of operations; 3 threads on registries, 4 on event queues, 3 on "
    "metered queues, 2 dispatching",
    "thorough": "any 2 of 16 or 22 operations preempted once; 10 pairs and "
    "10 triples preempted twice; 2 and 3 counters, registries "
    "and queues preempted twice",
    "both": "amounts and values are symbolic; the outcome (results, values, "
    "ids, metrics, events, frames) is compared with that of every sequential "
    "order of the same operations",
}
OUTSIDE = (
    "more threads and preemptions; preemption inside of one statement or of "
    "the standard library's queues; events beyond the capacity of the event "
    "queue (it drops them); a frame queue that is full (its user waits)"
)
BUDGET = {"quick": 250}


def attempt(func, *args):
    """The result of an operation, or what it raised."""
    try:
        return func(*args)
    except Exception as exc:  # pylint: disable=broad-except
        return "raised " + type(exc).__name__


class Env:
    """An environment and what can be done with it."""

    def __init__(self, vals, metrics):
        self.vals = vals
        env = TelemetryEnvironment(
            256, 4.0, 1.0 if metrics else None, app_id_basis=0.5
        )
        self.env = env
        env.add_enum(user_enum("e", {1: "x", 2: "y"}))
        self.chan = env.add_channel("a", Primitive.UINT8, 1.0, True)
        self.enum = env.add_enum_channel("en", "e", 1.0, True)
        env.add_metric("m", Primitive.INT32, True)
        env.event_queue.consume()

    def read(self, name):
        """Read a channel by name."""
        num = self.env.channel_registry.get_id(name)
        if num is None:
            return None
        if self.env.is_enum_channel(num):
            return self.env.get_enum_value(num)
        return self.env.get_value(num)

    def step(self, amount):
        """Increment a channel."""
        chan = self.env.channel_registry.get_item(self.chan)
        return chan.command(amount, 9.0, True)

    def run(self, oper):
        """Run an operation (the same for each environment)."""
        env = self.env
        x, y = self.vals
        jobs = {
            "add": lambda: env.add_channel("b", Primitive.UINT8, 1.0),
            "add other": lambda: env.add_channel(
                "c", Primitive.INT16, 2.0, True, (5, 1.0)
            ),
            "add tracked": lambda: env.add_channel(
                "b", Primitive.INT16, 2.0, True, (5, 1.0)
            ),
            "add enum channel": lambda: env.add_enum_channel(
                "b", "e", 1.0, True, ("y", 2.0)
            ),
            "add enum": lambda: env.add_enum(user_enum("f", {3: "z"})),
            "add same enum": lambda: env.add_enum(user_enum("f", {4: "w"})),
            "add another enum": lambda: env.add_enum(
                user_enum("g", {4: "w"})
            ),
            "add metric": lambda: env.add_metric(
                "n", Primitive.UINT32, True, (1, None)
            ),
            "add enum metric": lambda: env.add_enum_metric("n", "e", True),
            "increment": lambda: env.metric_add("m", x, 5.0),
            "increase": lambda: env.metric_add("m", y),
            "set metric": lambda: env.set_metric("m", y, 6.0),
            "set": lambda: env.set_now(self.chan, x),
            "command": lambda: env.command_channel("a", y),
            "step": lambda: self.step(x),
            "step back": lambda: self.step(-1),
            "set enum": lambda: env.set_enum_now(self.enum, "y"),
            "command enum": lambda: env.command_enum_channel("en", "x"),
            "read": lambda: self.read("a"),
            "read new": lambda: self.read("b"),
            "count": env.channel_registry.count,
            "describe": lambda: json.loads(env.channel_registry.describe()),
            "types": lambda: json.loads(env.type_registry.describe()),
            "mtu": lambda: env.handle_new_mtu(100),
            "other mtu": lambda: env.handle_new_mtu(200),
            "rate": lambda: env.set_channel_rate(self.chan, 3.0),
            "consume": env.event_queue.consume,
            "time": lambda: env.advance_time(1.0),
            "more time": lambda: env.advance_time(2.0),
            "data": lambda: env.dispatch_data(50.0),
            "events": lambda: env.dispatch_events(51.0),
        }
        return attempt(jobs[oper])

    def state(self):
        """Everything there is."""
        env = self.env
        reg = env.channel_registry
        out = {"time": env.get_time(), "mtu": env.framer.mtu}
        chans = []
        for num in range(reg.count()):
            chan = reg.get_item(num)
            enum = env.is_enum_channel(num)
            chans.append(
                [
                    chan.name,
                    reg.get_id(chan.name),
                    chan.get(),
                    chan.last_set,
                    chan.rate,
                    chan.type.name,
                    env.get_enum_value(num) if enum else None,
                ]
            )
        out["channels"] = chans
        out["framed"] = [x.name for x in env.framer.channels]
        out["metrics"] = dict(env.metrics) if env.metrics is not None else {}
        for name in ("enum", "type"):
            reg = env.registries[name]
            out[name] = [reg.get_id(x) for x in ("e", "f", "g")]
            out[name].append(reg.count())
        # the events of each channel: they are in order, those of several
        # channels that one operation changes aren't one event
        out["events"] = {}
        for name, prev, curr in env.event_queue.consume():
            out["events"].setdefault(name, []).append((prev, curr))
        out["frames"] = [bytes(x.raw[0]) for x in drain(env.frame_queue)]
        return out


# those of the quick tier first
WITH_METRICS = [
    "add",
    "add tracked",
    "add enum channel",
    "add enum",
    "add same enum",
    "add metric",
    "add enum metric",
    "increment",
    "set metric",
    "rate",
    "types",
    "increase",
    "add another enum",
    "add other",
    "count",
    "time",
]
WITHOUT = [
    "add",
    "add tracked",
    "add enum channel",
    "set",
    "command",
    "step",
    "set enum",
    "read",
    "read new",
    "consume",
    "rate",
    "time",
    "data",
    "events",
    "mtu",
    "describe",
    "more time",
    "other mtu",
    "step back",
    "command enum",
    "add enum",
    "add same enum",
]
# the same operation at the same time isn't one with itself for these
READERS = {"types", "count", "read", "read new", "describe"}


def others(opers, first, num):
    """What runs at the same time."""
    return [
        x
        for x in opers[first:num]
        if not (x in READERS and opers[first] in READERS)
    ]


SEQUENTIAL: dict = {}


def sequential(cx, opers, metrics, vals):
    """
    The outcome of every order of the operations. These runs don't depend on
    the schedule: they are remembered unless they decide anything symbolic.
    """
    key = (tuple(opers), metrics)
    if cx.symbolic and key in SEQUENTIAL:
        return SEQUENTIAL[key]

    def compute():
        wants = []
        for order in sorted(set(itertools.permutations(range(len(opers))))):
            other = Env(vals, metrics)
            res = [None] * len(opers)
            for num in order:
                res[num] = other.run(opers[num])
            wants.append([res, other.state()])
        return wants

    if not cx.symbolic:
        return compute()
    with core.cur().aside() as aside:
        wants = compute()
    if not aside.used:
        return compute()
    SEQUENTIAL[key] = wants
    return wants


def linear(cx, opers, metrics, preempt):
    """Operations at the same time have an outcome of some order."""
    vals = (cx.int("x", 1, 20), cx.int("y", 21, 40)) if metrics else (7, 30)
    wants = sequential(cx, opers, metrics, vals)
    bench = Env(vals, metrics)
    results = cx.tasks(
        *[lambda o=o: bench.run(o) for o in opers], preempt=preempt
    )
    cx.check(cx.free_locks(), "unlocked")
    got = [results, bench.state()]
    cx.check(
        cx.any([cx.same(got, x) for x in wants]),
        "the outcome of some sequential order",
    )


def pair(cx, opers, first, num, preempt):
    """Two operations."""
    seconds = others(opers, first, num)
    if seconds:
        second = cx.choice("second", seconds)
        linear(cx, [opers[first], second], opers is WITH_METRICS, preempt)


@case(
    quick={"first": list(range(11)), "num": [11], "preempt": [1]},
    thorough={"first": list(range(16)), "num": [16], "preempt": [1]},
    _max_paths=200000,
)
def measured(cx, first, num, preempt):
    """Any two operations of an environment with metrics."""
    pair(cx, WITH_METRICS, first, num, preempt)


@case(
    quick={"first": list(range(16)), "num": [16], "preempt": [1]},
    thorough={"first": list(range(22)), "num": [22], "preempt": [1]},
    _max_paths=200000,
)
def bare(cx, first, num, preempt):
    """Any two operations of an environment without metrics."""
    pair(cx, WITHOUT, first, num, preempt)


TWICE = [
    ("set", "command"),
    ("step", "step back"),
    ("set", "data"),
    ("set", "events"),
    ("set", "consume"),
    ("set enum", "command enum"),
    ("time", "more time"),
    ("add", "add tracked"),
    ("mtu", "other mtu"),
    ("add enum channel", "read new"),
]
THRICE = [
    ("set", "command", "step"),
    ("step", "step back", "set"),
    ("set", "step", "consume"),
    ("set", "data", "events"),
    ("add", "add tracked", "add enum channel"),
    ("add", "read new", "add tracked"),
    ("set enum", "command enum", "read"),
    ("time", "more time", "set"),
    ("add tracked", "events", "data"),
    ("add enum", "add same enum", "types"),
]


@case(
    quick={"opers": [], "preempt": [2]},
    thorough={"opers": TWICE, "preempt": [2]},
    _max_paths=200000,
    _deadline=900,
)
def twice(cx, opers, preempt):
    """Two operations, preempted twice."""
    linear(cx, list(opers), False, preempt)


@case(
    quick={"opers": THRICE[:2], "preempt": [1]},
    thorough={"opers": THRICE, "preempt": [2]},
    _max_paths=200000,
    _deadline=900,
)
def thrice(cx, opers, preempt):
    """Three operations at the same time."""
    linear(cx, list(opers), False, preempt)


def service_counters(cx, amounts, preempt):
    """Counters of a service, counted up and down."""
    env = None
    if cx.bool("env"):
        env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    daemon = DaemonBase("d", env)
    daemon.reset_metric("things")
    down = cx.bool("down")
    jobs = [
        (lambda x=x: daemon.decrement_metric("things", x))
        if down and not num
        else (lambda x=x: daemon.increment_metric("things", x))
        for num, x in enumerate(x % 100 for x in amounts)
    ]
    amounts = [x % 100 for x in amounts]
    if down:
        cx.assume(amounts[0] <= amounts[1])
        daemon.increment_metric("things", 100)
    cx.tasks(*jobs, preempt=preempt)
    cx.check(cx.free_locks(), "unlocked")
    want = sum(amounts)
    if down:
        want = want - amounts[0] * 2 + 100
    cx.check_eq(
        daemon.function["metrics_data"]["things"], want, "all are counted"
    )
    if env is not None:
        cx.check_eq(env.get_metric("d.things"), want, "and published")


@case(
    _weight=2,
    quick={"size": [2], "preempt": [1]},
    thorough={"size": [2, 3], "preempt": [2]},
    _max_paths=200000,
)
def counters(cx, size, preempt):
    """Amounts that are added at the same time are all added."""
    how = cx.choice("how", ["primitive", "channel", "metric", "service"])
    amounts = [cx.int(f"amount{i}", -1000, 1000) for i in range(size)]
    events = EventQueue()
    if how == "primitive":
        prim = TypePrimitive(Primitive.INT32)
        jobs = [lambda x=x: prim.add(x, 1.0) for x in amounts]
    elif how == "channel":
        prim = Channel("a", Primitive.INT32, 1.0, events)
        jobs = [lambda x=x: prim.command(x, 1.0, True) for x in amounts]
    elif how == "service":
        service_counters(cx, amounts, preempt)
        return
    else:
        env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
        env.add_metric("m", Primitive.INT32, True)
        prim = env.channel_registry.get_item(env.metrics["m"])
        events = env.event_queue
        events.consume()
        jobs = [lambda x=x: env.metric_add("m", x, 1.0) for x in amounts]
    cx.tasks(*jobs, preempt=preempt)
    cx.check_eq(prim.get(), sum(amounts), "all amounts are added")
    last = 0
    for _, prev, curr in events.consume():
        cx.check_eq(prev[0], last, "events continue each other")
        last = curr[0]
    if how != "primitive":
        cx.check_eq(last, sum(amounts), "events lead to the final value")


@case(
    _weight=2,
    kind=["registry", "channel", "enum", "service"],
    quick={"size": [2], "preempt": [1]},
    thorough={"size": [2, 3], "preempt": [2]},
    _max_paths=200000,
)
def registries(cx, kind, size, preempt):
    """Names registered at the same time have their own identifiers."""
    names = ["a"]
    for num in range(1, size):
        names.append(cx.choice(f"name{num}", sorted(set(names)) + [str(num)]))
    if kind == "channel":
        reg = ChannelRegistry()
        items = [Channel(x, Primitive.INT8, 1.0) for x in names]
        add = reg.add_channel
        jobs = [lambda x=x: add(x) for x in items]
    elif kind == "enum":
        reg = EnumRegistry()
        items = [user_enum(x, {i: "v"}) for i, x in enumerate(names)]
        add = reg.add_enum
        jobs = [lambda x=x: add(x) for x in items]
    else:
        reg = ServiceRegistry() if kind == "service" else Registry("items")
        items = [[("host", i)] for i in range(size)]
        jobs = [
            lambda n=n, x=x: reg.add(n, x) for n, x in zip(names, items)
        ]
    seen = []

    def watch() -> None:
        """Look at the registry in the meantime."""
        for _ in range(2):
            num = reg.count()
            seen.append(
                (num, [reg.get_item(i) for i in range(num)], reg.describe())
                if kind != "service"
                else (num, [reg.get_item(i) for i in range(num)], "{}")
            )

    results = cx.tasks(*jobs, watch, preempt=preempt)[:size]
    known = sorted(set(names))
    cx.check(reg.count() == len(known), "one identifier for each name")
    ids = [reg.get_id(x) for x in known]
    cx.check(sorted(ids) == list(range(len(known))), "consecutive ones")
    for name in known:
        mine = [i for i in range(size) if names[i] == name]
        good = [i for i in mine if results[i][0]]
        cx.check(len(good) == 1, "a name is registered once")
        num = good[0]
        cx.check(results[num][1] == reg.get_id(name), "under its identifier")
        cx.check(reg.get_item(results[num][1]) is items[num], "with its item")
        for other in mine:
            if other != num:
                cx.check(results[other] == (False, -1), "others are rejected")
    for num, found, text in seen:
        cx.check(all(x is not None for x in found), "what is counted is there")
        cx.check(isinstance(json.loads(text), dict), "it can be described")


@case(
    _weight=2,
    quick={"preempt": [1]},
    thorough={"preempt": [2]},
    _max_paths=200000,
)
def queues(cx, preempt):
    """What a queue publishes agrees with what went through it."""
    env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    que = MeteredQueue("q", env)
    que.put("first")
    ups = cx.choice("puts", [1, 2])
    puts = [i < ups for i in range(3)]
    got = []
    jobs = [
        (lambda i=i: que.put(i)) if x else (lambda: got.append(que.get(True)))
        for i, x in enumerate(puts)
    ]
    ins = 1 + len([x for x in puts if x])
    outs = 3 - len([x for x in puts if x])
    cx.tasks(*jobs, preempt=preempt)
    left = []
    num = que.qsize()
    cx.check(num == ins - outs, "elements that are left")
    cx.check(env.get_metric("q_queue.elements") == num, "elements")
    cx.check(env.get_metric("q_queue.total_enqueued") == ins, "enqueued")
    cx.check(env.get_metric("q_queue.total_dequeued") == outs, "dequeued")
    while not que.empty():
        left.append(que.get())
    want = ["first"] + [i for i, x in enumerate(puts) if x]
    cx.check(sorted(map(str, got + left)) == sorted(map(str, want)), "all")
    cx.check(not got or "first" in got, "in order")


@case(
    _weight=2,
    quick={"preempt": [1]},
    thorough={"preempt": [2]},
    _max_paths=200000,
)
def events(cx, preempt):
    """Each event is consumed once, those of a thread in their order."""
    que = EventQueue()
    taken = [[], []]

    def fill(name):
        """Two events."""
        for num in range(2):
            que.enqueue(name, (num, 0.0), (num + 1, 0.0))

    def drain_to(out):
        """Consume what there is."""
        out.extend(que.consume())

    cx.tasks(
        lambda: fill("a"),
        lambda: fill("b"),
        lambda: drain_to(taken[0]),
        lambda: drain_to(taken[1]),
        preempt=preempt,
    )
    rest = que.consume()
    total = taken[0] + taken[1] + rest
    cx.check(len(total) == 4, "each event once")
    for name in ("a", "b"):
        for part in taken[0], taken[1], rest:
            nums = [x[1][0] for x in part if x[0] == name]
            cx.check(nums == sorted(nums), "in order")
        nums = [x[1][0] for x in total if x[0] == name]
        cx.check(sorted(nums) == [0, 1], "all of a thread")


@case(
    quick={"second": ["change"], "preempt": [1]},
    thorough={"second": ["dispatch", "change"], "preempt": [1]},
    _max_paths=200000,
    _weight=2,
    _deadline=900,
)
def dispatches(cx, second, preempt):
    """Dispatches at the same time: each change is sent once."""
    env = TelemetryEnvironment(512, 0.0, 100.0, app_id_basis=0.5)
    chan = env.add_channel("a", Primitive.UINT8, 1.0, True)
    env.dispatch(0.5, False)
    drain(env.frame_queue)

    def change() -> None:
        """Change a channel."""
        env.set_now(chan, 3)
        env.set_now(chan, 4)

    def other() -> None:
        """Dispatch, too."""
        env.dispatch(1.5, False)

    if second == "dispatch":
        change()
    cx.tasks(
        lambda: env.dispatch(1.0, False),
        change if second == "change" else other,
        preempt=preempt,
    )
    if second == "change":
        other()
    env.dispatch(9.0, False)
    cx.check(env.get_metric("dispatch_count") == 4, "each is counted")
    found = []
    for frame in drain(env.frame_queue):
        data = bytes(frame.raw[0])
        parsed = env.decode_frame(data, len(data))
        cx.check(parsed is not None, "each frame is decoded")
        for event in parsed.body.get("events", []):
            if event["channel"].name == "a":
                found.append(
                    (event["previous"]["value"], event["current"]["value"])
                )
    cx.check(found == [(0, 3), (3, 4)], "each change once, in order")
