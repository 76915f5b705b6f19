"""C24: locks."""

from io import BytesIO

from vtelem.channel.group import ChannelGroup
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.classes.time_entity import OptionalRLock, TimeEntity
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.classes.user_enum import user_enum
from vtelem.daemon import DaemonBase
from vtelem.daemon.manager import DaemonManager
from vtelem.daemon.synchronous import Daemon
from vtelem.enums.daemon import DaemonOperation
from vtelem.enums.primitive import Primitive
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry as Enums
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import TypeRegistry
from vtelem.stream.writer import QueueClientManager, default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

BOUNDS = {
    "quick": "3 nested locks; any 2 operations of each kind of object, each "
    "failing in any of its handlers, bodies or arguments; then an operation "
    "of another thread",
    "thorough": "3 operations",
}
OUTSIDE = "locks of the standard library's own objects; asynchronous exceptions"


class Oops(Exception):
    """What handlers raise."""


def maybe(cx, name, result=None):
    """A handler that raises, or not."""
    bad = cx.bool(name)

    def handler(*_, **__):
        if bad:
            raise Oops(name)
        return result

    return handler


def other_thread(cx, *funcs):
    """Another thread can use the object."""

    def task():
        for func in funcs:
            func()

    cx.tasks(task)
    after(cx)


def after(cx):
    """No lock is held by us, or by a thread that ended."""
    main = cx.world.main
    mine = [
        x for x in cx.held_locks() if x.held is main or x.held.done
    ]
    cx.check(not mine, "every lock is free")


@case(make=[True, False], _max_paths=2000)
def optional(cx, make):
    """Nested bodies, one of which may raise."""
    lock = OptionalRLock(make, "item")
    depth = cx.choice("depth", [1, 2, 3])
    where = cx.choice("raises", [None, 0, 1, 2])
    leave = cx.choice("caught", [0, 1, 2])
    seen = []

    def body(level):
        with lock as item:
            seen.append(item)
            if level + 1 < depth:
                if level == leave:
                    cx.catch(body, level + 1)
                else:
                    body(level + 1)
            if level == where:
                raise Oops()

    ok, _ = cx.catch(body, 0)
    cx.check(seen == ["item"] * depth, "the item is given")
    fails = where is not None and where < depth
    cx.check(
        ok == (not fails or leave < where), "the exception is passed on"
    )
    after(cx)
    other_thread(cx, lambda: cx.catch(body, 2))


ENV_OPS = [
    "channel", "initial", "enum", "enum_channel", "command", "set", "time",
    "dispatch", "decode", "mtu", "metric", "advance",
]


def env_op(cx, env, oper, name):
    """An operation of an environment, that may fail."""
    num = cx.int(name + ".num", -1, 5)
    if oper == "channel":
        env.add_channel(
            cx.choice(name + ".name", ["a", "new" + name]), Primitive.UINT8, 1.0
        )
    elif oper == "initial":
        env.add_channel(
            "init" + name, Primitive.UINT8, 1.0, True,
            (cx.int(name + ".value", -1, 256), 1.0),
        )
    elif oper == "enum":
        env.add_enum(
            user_enum(
                cx.choice(name + ".name", ["e", "primitive", "f"]),
                {num + 1: "x"},
            )
        )
    elif oper == "enum_channel":
        env.add_enum_channel(
            cx.choice(name + ".name", ["a", "en" + name]),
            cx.choice(name + ".enum", ["e", "g"]),
            1.0,
            False,
            (cx.choice(name + ".init", ["x", "y"]), 1.0),
        )
    elif oper == "command":
        env.command_channel_id(num, cx.choice(name + ".val", [1, "1", -1]))
    elif oper == "set":
        env.set_enum_now(num, cx.choice(name + ".val", ["x", "y"]))
    elif oper == "time":
        env.set_time(cx.choice(name + ".time", [-1.0, 5.0]))
    elif oper == "dispatch":
        env.dispatch(cx.choice(name + ".time", [-1.0, 5.0, None]))
    elif oper == "decode":
        env.decode_frame(b"\0" * 3, 3)
    elif oper == "mtu":
        env.handle_new_mtu(cx.choice(name + ".mtu", [0, 100, None]))
    elif oper == "advance":
        env.advance_time(cx.choice(name + ".time", [1.0, None]))
    else:
        env.set_metric("channel_count", cx.int(name + ".val", -1, 1))


@case(
    first=ENV_OPS,
    quick={"steps": [1]},
    thorough={"steps": [2]},
    _max_paths=50000,
)
def environments(cx, first, steps):
    """Operations of an environment."""
    env = TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)
    env.add_enum(user_enum("e", {1: "x"}))
    env.add_channel("a", Primitive.UINT8, 1.0)
    for step in range(steps):
        oper = first if step == 0 else cx.choice(f"op{step}", ENV_OPS)
        cx.catch(env_op, cx, env, oper, f"arg{step}")
        after(cx)
    other_thread(
        cx,
        lambda: env.set_time(7.0),
        lambda: env.command_channel("a", 1),
        lambda: env.add_channel("last", Primitive.UINT8, 1.0),
    )


@case(how=["write", "read", "body", "registry", "add"])
def groups(cx, how):
    """Groups of channels."""
    env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
    env.add_enum(user_enum("e", {1: "x"}))
    group = ChannelGroup("g", env)
    group.add_channel("a", Primitive.UINT8, 1.0)
    group.add_enum_channel("en", "e", 1.0)
    bad = cx.bool("bad")
    values = cx.choice(
        "values", [{"a": 5}, {"a": 500}, {"b": 1}, {"en": "y"}, {"en": "x"}]
    )
    if how == "write":
        cx.catch(group.write, values)
    elif how == "read":
        if bad:
            group.channels["en"]["id"] = 77
        cx.catch(group.read)
    elif how == "add":
        cx.catch(group.add_channel, "a", Primitive.UINT8, 1.0)
        cx.catch(group.add_enum_channel, "en", cx.choice("enum", ["e", "f"]), 1.0)
    else:
        registry = ChannelGroupRegistry(env)
        num = registry.create_group("h")
        registry.add_channel(num, "a", Primitive.UINT8, 1.0)

        def body():
            with (
                registry.group(num) if how == "registry" else group.data()
            ) as data:
                data.update(values)
                if bad:
                    raise Oops()

        cx.catch(body)
    after(cx)
    other_thread(
        cx,
        lambda: env.command_channel("g.a", 1),
        lambda: group.write({"a": 3}),
        lambda: env.dispatch(100.0),
    )


@case(
    quick={"steps": [2]}, thorough={"steps": [3]}, env=[True, False],
    _max_paths=50000,
)
def machines(cx, env, steps):
    """State machines whose hooks may raise."""
    env = TelemetryEnvironment(256, 0.0, None) if env else None
    goal = cx.choice("goal", ["a", "b", "unknown", None])
    states = [
        State(
            "a",
            maybe(cx, "run a", goal),
            None,
            maybe(cx, "leave a", True),
            env,
        ),
        State("b", None, maybe(cx, "enter b", True), None, env),
    ]
    machine = StateMachine("m", states, env=env)
    for _ in range(steps):
        cx.catch(machine.run, {"x": 1})
        after(cx)

    def body():
        with machine.data():
            if goal is None:
                raise Oops()

    cx.catch(body)
    after(cx)
    other_thread(cx, lambda: cx.catch(machine.run), lambda: cx.catch(body))


class Failing(DaemonBase):
    """A service whose operations may raise."""

    def __init__(self, cx, name, fails):
        super().__init__(name)
        self.fails = fails

    def perform(self, action, *args, **kwargs):
        """Raises."""
        if self.fails:
            raise Oops()
        return True

    def get_state_str(self):
        """Raises."""
        if self.fails:
            raise Oops()
        return super().get_state_str()


@case(how=["one", "all", "str", "str_all", "states", "add", "get"])
def managers(cx, how):
    """Managers of services that may raise."""
    manager = DaemonManager()
    cyclic = cx.bool("cyclic")
    for name, deps in (("x", None), ("y", ["x"])):
        manager.add_daemon(Failing(cx, name, cx.bool("fails " + name)), deps)
    name = cx.choice("name", ["x", "y", "z"])
    if how == "one":
        cx.catch(manager.perform, name, DaemonOperation.START)
    elif how == "all":
        cx.catch(manager.perform_all, DaemonOperation.START)
    elif how == "str":
        cx.catch(manager.perform_str, name, cx.choice("op", ["stop", "no"]))
    elif how == "str_all":
        cx.catch(manager.perform_str_all, cx.choice("op", ["stop", "no"]))
    elif how == "states":
        cx.catch(manager.states)
    elif how == "add":
        cx.catch(
            manager.add_daemon,
            DaemonBase(cx.choice("new", ["all", "x", "z"])),
            ["x"] if cyclic else None,
        )
    else:
        cx.catch(manager.get, cx.choice("new", ["all", "x", "z"]))
    after(cx)
    other_thread(
        cx,
        lambda: cx.catch(manager.states),
        lambda: manager.add_daemon(DaemonBase("last")),
    )


@case(
    env=[True, False],
    quick={"steps": [2]},
    thorough={"steps": [3]},
    _max_paths=50000,
)
def services(cx, env, steps):
    """Services whose task or state handler may raise."""
    env = TelemetryEnvironment(256, 0.0, 1.0) if env else None
    handler = maybe(cx, "state handler")
    armed = []
    task = maybe(cx, "task")

    def changed(*args):
        if armed:
            handler(*args)

    daemon = Daemon("d", task, 1.0, None, changed, env)
    armed.append(True)
    ops = {
        "start": daemon.start,
        "pause": daemon.pause,
        "unpause": daemon.unpause,
        "stop": daemon.stop,
        "rate": lambda: daemon.set_rate(cx.choice("rate", [0.0, 2.0, None])),
        "metric": lambda: daemon.increment_metric(
            "some", cx.choice("by", [1, -1])
        ),
        "decrement": lambda: daemon.decrement_metric("some"),
        "reset": lambda: daemon.reset_metric("some", cx.choice("to", [1, -1])),
    }
    for step in range(steps):
        cx.catch(ops[cx.choice(f"op{step}", list(ops))])
        after(cx)
    cx.world.idle(cx.world.now + 3.0)
    after(cx)
    other_thread(
        cx,
        lambda: cx.catch(daemon.pause),
        lambda: cx.catch(daemon.increment_metric, "good"),
        lambda: cx.catch(daemon.stop),
    )
    after(cx)


class BadStream(BytesIO):
    """A stream that may fail."""

    name = "bad"

    def __init__(self, cx, name):
        super().__init__()
        self.fails = cx.choice(name, [None, OSError, Oops])

    def write(self, data):
        """Fails."""
        if self.fails is not None:
            raise self.fails("failed")
        return len(data)


@case()
def writers(cx):
    """Writers with failing streams and closers."""
    env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
    env.add_channel("c", Primitive.UINT8, 1.0)
    env.dispatch(5.0)
    writer, queue = default_writer(
        "w", maybe(cx, "error handler"), maxsize=0
    )
    manager = QueueClientManager("clients", writer)
    num = writer.add_stream(BadStream(cx, "stream"), maybe(cx, "closer"))
    client, _ = manager.add_client_queue()
    queue.put(env.frame_queue.get())
    cx.check(writer.start(), "starts")
    cx.world.idle()
    after(cx)
    cx.catch(writer.remove_stream, num)
    after(cx)
    cx.catch(writer.remove_stream, num)
    if cx.bool("removed"):
        cx.catch(writer.remove_queue, client)
    cx.check(manager.close_clients() <= 1, "closed")
    after(cx)
    other_thread(
        cx,
        lambda: writer.add_stream(BytesIO()),
        manager.close_clients,
    )
    cx.catch(writer.stop)
    after(cx)


class Sock:
    """A socket that may fail."""

    def __init__(self, cx, name):
        self.close = maybe(cx, name + ".close")
        self.getsockname = maybe(cx, name + ".name", ("localhost", 1))


@case()
def clients(cx):
    """Outgoing UDP clients whose sockets may fail."""
    writer, _ = default_writer("w")
    manager = UdpClientManager(writer)
    num = writer.add_stream(BytesIO())
    manager.clients[num] = (Sock(cx, "socket"), BytesIO())
    how = cx.choice("how", ["remove", "closer", "all", "name"])
    which = cx.choice("which", [num, 5])
    if how == "remove":
        cx.catch(manager.remove_client, which)
    elif how == "closer":
        cx.catch(manager.closer, which)
    elif how == "name":
        cx.catch(manager.client_name, which)
    else:
        cx.catch(manager.remove_all)
    after(cx)
    other_thread(cx, lambda: cx.catch(manager.remove_all))


@case()
def registries(cx):
    """A registry of enumerations."""
    registry = EnumRegistry({"mappings": {}})
    registry.add(user_enum("e", {1: "x"}))
    for step in range(2):
        name = cx.choice(f"name{step}", ["e", "f"])
        value = cx.choice(f"value{step}", ["x", "y"])
        cx.catch(registry.add, user_enum(name, {1: value}))
        after(cx)
    other_thread(cx, lambda: cx.catch(registry.add, user_enum("g", {2: "x"})))


@case()
def descriptions(cx):
    """A registry that holds something that can't be described."""
    kind = cx.choice("kind", ["any", "enum", "type", "service", "channel"])
    registry = {
        "any": lambda: Registry("things"),
        "enum": Enums,
        "type": TypeRegistry,
        "service": ServiceRegistry,
        "channel": ChannelRegistry,
    }[kind]()
    if cx.bool("odd"):
        registry.add("odd", object())
    cx.catch(registry.describe, cx.bool("indented"))
    after(cx)
    cx.catch(registry.add, "odd", cx.choice("item", [None, 5]))
    after(cx)
    for func in (registry.get_id, registry.get_item):
        cx.catch(func, cx.choice("what", ["odd", 0, None]))
        after(cx)
    other_thread(
        cx,
        lambda: cx.catch(registry.describe),
        lambda: cx.catch(registry.add, "new", 5),
    )


class BadFollower(TimeEntity):
    """A time entity that may refuse a time."""

    def __init__(self, handler):
        super().__init__()
        self.handler = handler

    def set_time(self, time):
        """Raises."""
        with self.lock:
            self.handler()
            super().set_time(time)


@case()
def keepers(cx):
    """A time keeper with failing followers or clock."""
    clock = maybe(cx, "clock", 5.0)
    armed = []

    def now():
        return clock() if armed else 1.0

    keeper = TimeKeeper("t", 1.0, 1.0, now, lambda _: None)
    armed.append(True)
    follower = BadFollower(maybe(cx, "follower"))
    cx.catch(keeper.add_slave, follower)
    after(cx)
    how = cx.choice("how", ["tick", "scale", "time", "advance"])
    if how == "tick":
        cx.catch(keeper.iteration)
    elif how == "scale":
        cx.catch(keeper.scale, cx.choice("scale", [2.0, -1.0, None]))
    elif how == "time":
        cx.catch(keeper.set_time, 8.0)
    else:
        cx.catch(keeper.advance_time, cx.choice("amount", [2.0, None]))
    after(cx)
    other_thread(
        cx,
        lambda: cx.catch(keeper.iteration),
        lambda: keeper.add_slave(TimeEntity()),
        lambda: cx.catch(follower.set_time, 3.0),
    )
