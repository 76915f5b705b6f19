"""C35: commands that control services and clients, and how they're sent."""

import asyncio
import json
import threading

import websockets

from vtelem.classes import udp_client_manager as manager_module
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.daemon import DaemonBase
from vtelem.daemon import event_loop as loop_module
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.manager import DaemonManager
from vtelem.enums.daemon import DaemonState
from vtelem.factories.daemon_manager import create_daemon_manager_commander
from vtelem.factories.udp_client_manager import create_udp_client_commander
from vtelem.factories.websocket_daemon import commandable_websocket_daemon
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer

from props import aio
from vsym.api import case

BOUNDS = {
    "quick": "2 commands to 2 services (15 operations, 9 lists of services) "
    "from any of their states; 3 commands to a manager of udp clients (adding, "
    "removing and listing, with any identifier); 2 messages of 15 kinds from 2 "
    "websocket clients",
    "thorough": "3 commands to services, 4 of udp clients, 3 messages",
}
OUTSIDE = (
    "sockets and the websockets library (stand-ins); a command that stops the "
    "service of commands itself; commands that take longer than the time a "
    "client is given"
)
ASSUMPTIONS = ["threads take turns where they wait"]
BUDGET = {"quick": 250}

S = DaemonState


class Worker(DaemonBase):
    """A service."""

    def __init__(self, name, log):
        super().__init__(name)
        self.halt = threading.Event()
        self.function["inject_stop"] = self.halt.set
        self.log = log

    def run(self, *_, **__):
        """Wait until it's stopped."""
        self.log.append("+" + self.name)
        self.halt.wait()
        self.halt.clear()
        self.log.append("-" + self.name)


def expected(state, oper):
    """Result and next state of an operation on a service."""
    table = {
        ("start", S.IDLE): (True, S.RUNNING),
        ("start", S.RUNNING): (True, S.RUNNING),
        ("start", S.PAUSED): (False, S.PAUSED),
        ("stop", S.IDLE): (True, S.IDLE),
        ("stop", S.RUNNING): (True, S.IDLE),
        ("stop", S.PAUSED): (False, S.PAUSED),
        ("pause", S.IDLE): (False, S.IDLE),
        ("pause", S.RUNNING): (True, S.PAUSED),
        ("pause", S.PAUSED): (True, S.PAUSED),
        ("unpause", S.IDLE): (True, S.IDLE),
        ("unpause", S.RUNNING): (True, S.RUNNING),
        ("unpause", S.PAUSED): (True, S.RUNNING),
        ("restart", S.IDLE): (False, S.IDLE),
        ("restart", S.RUNNING): (True, S.RUNNING),
        ("restart", S.PAUSED): (False, S.PAUSED),
        ("none", S.IDLE): (False, S.IDLE),
        ("none", S.RUNNING): (False, S.RUNNING),
        ("none", S.PAUSED): (False, S.PAUSED),
    }
    return table[(oper, state)]


OPERS = {
    "start": "start", "stop": "stop", "pause": "pause", "unpause": "unpause",
    "restart": "restart", "none": "none", "upper": "STOP", "mixed": "Start",
    "states": "states", "bogus": "bogus", "blank": "", "number": 5,
    "list": ["stop"], "null": None, "missing": None,
}
LISTS = {
    "a": ["a"], "b": ["b"], "both": ["b", "a"], "all": ["all"],
    "more": ["a", "all"], "unknown": ["a", "zz"], "empty": [],
    "text": "all", "missing": None,
}


@case(
    quick={"steps": [2]},
    thorough={"steps": [3]},
    start_a=["idle", "running", "paused"],
    part=[0, 1, 2],
)
def services(cx, steps, start_a, part):
    """Operations reach exactly the services they're for."""
    manager = DaemonManager()
    log = []
    work = {x: Worker(x, log) for x in "ab"}
    for one in work.values():
        cx.check(manager.add_daemon(one), "added")
    queue = CommandQueueDaemon("command")
    create_daemon_manager_commander(manager, queue)
    cx.check(queue.start(), "started")
    model = {"a": S.IDLE, "b": S.IDLE}
    if start_a != "idle":
        work["a"].start()
        work["a"].started.wait()
        model["a"] = S.RUNNING
    if start_a == "paused":
        work["a"].pause()
        model["a"] = S.PAUSED
    for step in range(steps):
        opers = list(OPERS)
        what = cx.choice(f"oper{step}", opers if step else opers[part::3])
        data = {}
        if what != "missing":
            data["operation"] = OPERS[what]
        names = None
        valid = what in (
            "start", "stop", "pause", "unpause", "restart", "none", "upper",
            "mixed",
        )
        if valid:
            which = cx.choice(f"list{step}", list(LISTS))
            if which != "missing":
                data["daemons"] = LISTS[which]
                names = LISTS[which]
        ok, text = queue.execute({"command": "daemon", "data": data})
        cx.world.idle(cx.world.now + 0.1)
        oper = str(data.get("operation")).lower()
        if what == "states":
            cx.check(ok, "states are told")
            cx.check(
                json.loads(text)
                == {x: y.name.lower() for x, y in model.items()},
                "the states",
            )
        elif not valid or not isinstance(names, list):
            cx.check(not ok, "refused")
            cx.check(isinstance(text, str) and text != "", "with a reason")
        else:
            if "all" in names:
                names = ["a", "b"]
            results = {}
            for name in names:
                results[name] = False
                if name in model:
                    res, model[name] = expected(model[name], oper)
                    results[name] = res
            cx.check(ok == all(results.values()), "the overall result")
            told = json.loads(text)
            cx.check(told["results"] == results, "each one's result")
            for name, state in model.items():
                # it may have been told before it was running
                want = [state.name.lower()]
                if state is S.RUNNING and results.get(name):
                    want.append("starting")
                cx.check(told[name] in want, "each one's state is told")
        for name, one in work.items():
            cx.check(one.get_state() is model[name], "each one's state")
            alive = model[name] is not S.IDLE
            cx.check((one.thread is not None) == alive, "its thread")
            cx.check(
                log.count("+" + name) - log.count("-" + name) == int(alive),
                "its task",
            )
    cx.check(queue.stop(), "stopped")


class Out:
    """A socket of a udp client."""

    made = []

    def __init__(self, host, port):
        self.host = tuple(host)
        self.port = port
        self.closed = False
        self.file = None

    def getsockname(self):
        """Its address."""
        assert not self.closed
        return ("127.0.0.1", self.port)

    def makefile(self, _):
        """A file."""
        return OutFile(self)

    def close(self):
        """Close it."""
        self.closed = True


class OutFile:
    """Its file."""

    def __init__(self, sock):
        self.sock = sock

    def write(self, data):
        """Send."""
        return len(data)

    def flush(self):
        """Nothing to do."""

    def close(self):
        """Close it."""


UDP = [
    "add", "add-fails", "add-no-host", "add-no-port", "add-nothing", "remove",
    "remove-none", "remove-odd", "list", "list-one", "list-odd", "bogus",
    "missing", "number",
]


@case(
    quick={"steps": [2]},
    thorough={"steps": [3]},
    first=["add", "none"],
)
def clients(cx, steps, first):
    """Udp clients are added, removed and listed as asked."""
    made = []
    fails = [False]
    limit = 1500

    def create(host, *_):
        if fails[0]:
            raise OSError(113, "no route to host")
        if not isinstance(host[0], str) or host[1] is None:
            raise TypeError("not an address")
        made.append(Out(host, 5000 + len(made)))
        return made[-1]

    cx.patch(manager_module, "create_udp_socket", create)
    cx.patch(manager_module, "discover_mtu", lambda sock: limit)
    writer, _ = default_writer("w")
    manager = UdpClientManager(writer)
    queue = CommandQueueDaemon("command")
    create_udp_client_commander(manager, queue)
    cx.check(queue.start(), "started")
    model = {}

    def run(data):
        return queue.execute({"command": "udp", "data": data})

    def listed():
        ok, text = run({"operation": "list"})
        cx.check(ok, "listed")
        return json.loads(text)

    def add(name):
        before = listed()
        port = cx.choice(name, [1, 65535])
        ok, text = run({"operation": "add", "host": "10.0.0.1", "port": port})
        cx.check(ok, "added")
        cx.check(made[-1].host[0] == "10.0.0.1", "that host")
        cx.check(made[-1].host[1] == port, "that port")
        new = [x for x in listed() if x not in before]
        cx.check(len(new) == 1, "one more")
        cx.check("'" + new[0] + "'" in text, "its identifier is told")
        # without the headers of ip and udp
        cx.check("'" + str(limit - 68) + "'" in text, "its mtu is told")
        model[int(new[0])] = made[-1]

    if first == "add":
        add("first")
    for step in range(steps):
        what = cx.choice(f"what{step}", UDP)
        num = 0
        if what in ("remove", "list-one"):
            num = cx.pick(f"id{step}", 5) - 1
        if what == "add":
            add(f"port{step}")
        elif what.startswith("add"):
            data = {"operation": "add"}
            if what in ("add-fails", "add-no-port"):
                data["host"] = "10.0.0.2"
            if what in ("add-fails", "add-no-host"):
                data["port"] = 7
            fails[0] = what == "add-fails"
            ok, text = run(data)
            fails[0] = False
            cx.check(not ok, "not added")
        elif what == "remove":
            ok, text = run({"operation": "remove", "id": num})
            hit = None
            for one in model:
                if num == one:
                    hit = one
            cx.check(ok == (hit is not None), "removed if it's there")
            if hit is not None:
                cx.check(model[hit].closed, "and closed")
                del model[hit]
        elif what == "list-one":
            ok, text = run({"operation": "list", "id": num})
            hit = None
            for one in model:
                if num == one:
                    hit = one
            cx.check(ok == (hit is not None), "listed if it's there")
            if hit is not None:
                cx.check(
                    list(json.loads(text).values())
                    == ["127.0.0.1:" + str(model[hit].port)],
                    "its address",
                )
        elif what == "list":
            pass
        else:
            data = {
                "remove-none": {"operation": "remove"},
                "remove-odd": {"operation": "remove", "id": [0]},
                "list-odd": {"operation": "list", "id": "0"},
                "bogus": {"operation": "Add", "host": "h", "port": 1},
                "missing": {"host": "h", "port": 1},
                "number": {"operation": 5},
            }[what]
            ok, text = run(data)
            cx.check(not ok, "refused")
            cx.check(isinstance(text, str) and text != "", "with a reason")
        cx.check(
            listed()
            == {
                str(x): "127.0.0.1:" + str(y.port) for x, y in model.items()
            },
            "exactly the clients",
        )
        for sock in made:
            cx.check(
                sock.closed == (sock not in model.values()),
                "others' sockets are closed",
            )
        cx.check(len(writer.streams) == len(model), "a stream each")
    cx.check(queue.stop(), "stopped")


DEEP = "[" * 200000
MESSAGES = {
    "good": json.dumps({"command": "echo", "data": {"a": "x"}}),
    "bytes": json.dumps({"command": "echo", "data": {"a": "y"}}).encode(),
    "refused": json.dumps({"command": "echo", "data": {"no": 1}}),
    "raises": json.dumps({"command": "oops"}),
    "unicode": '{"command": "echo", "data": {"a": "\\ud800 \u00e9"}}',
    "utf16": json.dumps({"command": "echo", "data": {"a": "z"}}).encode(
        "utf-16"
    ),
    "unknown": '{"command": "zz"}',
    "list": "[1, 2]",
    "text": '"echo"',
    "null": "null",
    "empty": "",
    "not json": "{'command': 'echo'}",
    "not text": b"\xff\xfe\xfa",
    "half": b'{"command": "\xc3\x28"}',
    "deep": DEEP,
}
ANSWERS = {"good": "x", "bytes": "y", "unicode": "\ud800 \u00e9", "utf16": "z"}


@case(
    quick={"count": [2]},
    thorough={"count": [3]},
    suspend=[False, True],
    running=[True, False],
)
def messages(cx, count, suspend, running):
    """Every message gets an answer, and nothing ends a connection."""
    net = aio.Net(cx, loop_module, websockets)
    queue = CommandQueueDaemon("command")
    done = []

    def echo(data):
        done.append(data["a"])
        return data["no"] is None, data["a"]

    def oops(_):
        raise ValueError("oops")

    queue.register_consumer("echo", echo)
    queue.register_consumer("oops", oops)
    if running:
        cx.check(queue.start(), "commands are served")
    daemon = commandable_websocket_daemon(
        "ws", queue, Host("10.0.0.9", 99)
    )
    cx.check(daemon.start(), "started")
    cx.world.idle(cx.world.now + 0.1)
    links = []
    for idx in range(2):
        here, there = aio.link(("10.0.0.1", idx), ("10.0.0.9", 99), suspend)
        here.loop = net.loops[0]
        net.served[-1].accept(there)
        links.append((here, there))
    cx.world.idle(cx.world.now + 0.1)
    orders = [[], []]
    for num in range(count):
        idx = cx.pick(f"who{num}", 2) if num else 0
        kind = cx.choice(f"kind{num}", list(MESSAGES))
        links[idx][1].put(MESSAGES[kind])
        orders[idx].append(kind)
    cx.world.idle(cx.world.now + 30.0)
    for idx, (here, there) in enumerate(links):
        cx.check(not there.closed, "connections stay open")
        cx.check(len(here.inbox) == len(orders[idx]), "an answer for each")
        for kind, text in zip(orders[idx], here.inbox):
            told = json.loads(text)
            cx.check(
                sorted(told) == ["message", "success"], "what happened"
            )
            want = kind in ANSWERS and running
            cx.check(told["success"] is want, "its success")
            if want:
                cx.check(told["message"] == ANSWERS[kind], "its answer")
            elif kind != "refused":
                cx.check(isinstance(told["message"], str), "why")
    if running:
        want = []
        cx.check(
            sorted(str(x) for x in done)
            == sorted(
                str(ANSWERS.get(x))
                for y in orders
                for x in y
                if x in ANSWERS or x == "refused"
            ),
            "each is done once",
        )
    ok, res = cx.catch(daemon.stop)
    cx.check(ok and res, "stopped")
    cx.check(
        not [x for x in asyncio.all_tasks(net.loops[0]) if not x.done()],
        "nothing is left to do",
    )
    if running:
        cx.check(queue.stop(), "no commands any more")
