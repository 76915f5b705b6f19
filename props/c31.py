"""C31: a server with any combination of interfaces."""

import asyncio
import json
import threading
import time

from vtelem import app as app_module
from vtelem.channel.group import ChannelGroup
from vtelem.daemon import event_loop as loop_module
from vtelem.daemon import http as http_module
from vtelem.daemon import tcp_telemetry as tcp_module
from vtelem.daemon import websocket as ws_module
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket import WebsocketDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.classes import udp_client_manager as udp_module
from vtelem.enums.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.mtu import DEFAULT_MTU, Host, mtu_to_usable
from vtelem.telemetry import server as server_module
from vtelem.telemetry.server import TelemetryServer
from vtelem.types.telemetry_server import (
    Service,
    TelemetryServices,
    default_services,
)

from vsym.api import case

from props import httpkit

BOUNDS = {
    "quick": "every combination of the 4 interfaces, metrics, addresses and "
    "names; started and stopped once with up to 1 application and 2 udp "
    "client",
    "thorough": "started and stopped with up to 2 applications and 2 udp "
    "clients; the deaths and pauses of any application",
    "both": "application ids, ports, the discovered mtu and the requests of "
    "clients are symbolic",
}
OUTSIDE = (
    "sockets, the http, tcp and websocket libraries and the asyncio event "
    "loop (stand-ins that serve until they're told to stop); addresses that "
    "can't be bound; a shutdown by several causes at the same time"
)
ASSUMPTIONS = [
    "threads take turns where they wait (C17, C18, C30 preempt them)"
]
BUDGET = {"quick": 250}


class Net:
    """The network."""

    def __init__(self, cx, mtu):
        self.cx = cx
        self.mtu = mtu
        self.bound = []
        self.opened = []
        self.loops = []
        net = self

        class Server:
            """What an http or tcp service needs of a server."""

            def __init__(self, address, handler):
                self.address = tuple(address)
                self.handler = handler
                self.server_address = (address[0], 4000 + len(net.bound))
                self.down = threading.Event()
                self.stop = False
                self.serving = 0
                self.served = 0
                self.closed = 0
                self.socket = "socket"
                net.bound.append(self)

            def serve_forever(self, interval):
                """Serve until it's shut down."""
                self.down.clear()
                self.serving += 1
                self.served += 1
                while not self.stop:
                    time.sleep(interval)
                self.stop = False
                self.serving -= 1
                self.down.set()

            def shutdown(self):
                """Stop serving."""
                self.stop = True
                self.down.wait()

            def server_close(self):
                """Close the socket."""
                self.closed += 1

        class Loop(asyncio.AbstractEventLoop):
            """An event loop for functions that don't wait."""

            def __init__(self):
                self.stopped = threading.Event()
                self.running = 0
                self.runs = 0
                self.served = []
                net.loops.append(self)

            def run_until_complete(self, future):
                """Run a function."""
                net.current = self
                try:
                    future.send(None)
                except StopIteration as exc:
                    return exc.value
                raise AssertionError("waits")

            def run_forever(self):
                """Run until it's stopped."""
                self.running += 1
                self.runs += 1
                self.stopped.wait()
                self.stopped.clear()
                self.running -= 1

            def call_soon_threadsafe(self, callback, *args, **_):
                """Call something."""
                callback(*args)

            def stop(self):
                """Stop running."""
                self.stopped.set()

        class Serving:
            """What is awaited for a server."""

            def __init__(self, address):
                self.sockets = [self]
                self.address = address
                net.current.served.append(self)

            def getsockname(self):
                """The address."""
                return self.address

            def __await__(self):
                return self
                yield  # pylint: disable=unreachable

        self.loop = Loop
        cx.patch(http_module, "ThreadingHTTPServer", Server)
        cx.patch(tcp_module.socketserver, "ThreadingTCPServer", Server)
        cx.patch(loop_module.asyncio, "new_event_loop", Loop)
        cx.patch(loop_module.asyncio, "set_event_loop", lambda x: None)
        cx.patch(loop_module.asyncio, "all_tasks", lambda loop: set())
        cx.patch(
            ws_module.websockets,
            "serve",
            lambda handler, host, port, **_: Serving((host, port)),
        )
        cx.patch(ws_module, "get_free_tcp_port", lambda: 5000)
        cx.patch(server_module, "discover_ipv4_mtu", lambda host: mtu)
        cx.patch(udp_module, "create_udp_socket", self.udp)
        cx.patch(udp_module, "discover_mtu", lambda sock: mtu)

    current = None

    def udp(self, host):
        """A socket to a host."""
        sock = Sock(host)
        self.opened.append(sock)
        return sock


class Sock:
    """A socket and its file."""

    def __init__(self, host):
        self.host = tuple(host)
        self.closed = False
        self.name = "udp"
        self.sent = []
        self.file_closed = False

    def getsockname(self):
        """The address."""
        return ("127.0.0.1", 9)

    def makefile(self, mode):
        """A file."""
        assert mode == "wb"
        return SockFile(self)

    def close(self):
        """Close it."""
        self.closed = True


class SockFile:
    """A file of a socket."""

    def __init__(self, sock):
        self.sock = sock
        self.name = "udp"

    def write(self, data):
        """Send."""
        assert not self.sock.file_closed
        self.sock.sent.append(bytes(data))
        return len(data)

    def flush(self):
        """Nothing is kept."""

    def close(self):
        """Close it."""
        self.sock.file_closed = True

    @property
    def closed(self):
        """Whether it's closed."""
        return self.sock.file_closed


KINDS = ["http", "websocket_cmd", "websocket_tlm", "tcp_tlm"]
BASE = ["time", "telemetry", "stream", "command"]


class Setup:
    """A server and what it was made of."""

    def __init__(
        self, cx, udp=(), named=False, hosted=False, metrics=None, mtu=1500
    ):
        self.cx = cx
        self.mtu = mtu
        self.net = Net(cx, self.mtu)
        self.on = {x: bool(cx.bool(x)) for x in KINDS}
        defaults = default_services()
        self.names = {x: getattr(defaults, x).name for x in KINDS}
        self.hosts = {x: None for x in KINDS}
        if named:
            self.names = {x: "my " + x for x in KINDS}
        if hosted:
            self.hosts = {
                x: Host("10.0.0." + str(i), 100 + i)
                for i, x in enumerate(KINDS)
            }
        services = TelemetryServices(
            *[
                Service(self.names[x], self.hosts[x], self.on[x])
                for x in KINDS
            ],
            list(udp) if udp else None,
        )
        self.server = TelemetryServer(0.5, 0.5, metrics, 0.5, services)
        self.telem = self.server.daemons.get("telemetry")

    def check_known(self):
        """The manager knows what's enabled."""
        cx, server = self.cx, self.server
        want = BASE + [self.names[x] for x in KINDS[1:] if self.on[x]]
        known = list(server.daemons.states())
        cx.check(sorted(known) == sorted(want), "exactly the enabled ones")
        for name in known:
            for dep in server.daemons.depends_on[name] or []:
                cx.check(dep in known, "with what they depend on")
        types = [
            ("websocket_cmd", WebsocketDaemon),
            ("websocket_tlm", WebsocketTelemetryDaemon),
            ("tcp_tlm", TcpTelemetryDaemon),
        ]
        writer = server.daemons.get("stream")
        for kind, cls in types:
            found = server.daemons.get(self.names[kind])
            cx.check((found is not None) == self.on[kind], "enabled or not")
            if found is not None:
                cx.check(isinstance(found, cls), "its kind of service")
                cx.check(found.env is self.telem, "the same telemetry")
                if kind != "websocket_cmd":
                    cx.check(found.writer is writer, "the same writer")
                host = self.hosts[kind]
                if host is not None:
                    got = (
                        found.server.address
                        if kind == "tcp_tlm"
                        else tuple(found.address)
                    )
                    cx.check(got == tuple(host), "its address")
        cx.check(server.name == self.names["http"], "the name of the server")
        host = self.hosts["http"] or Host()
        cx.check(server.server.address == tuple(host), "the http address")
        cx.check_eq(
            self.telem.framer.mtu,
            cx.ite(
                self.mtu - (1500 - DEFAULT_MTU) < DEFAULT_MTU,
                mtu_to_usable(self.mtu),
                DEFAULT_MTU,
            ),
            "the smaller mtu",
        )

    def get(self, method, path, body=None):
        """What a request is answered."""
        headers, data = [], b""
        if body is not None:
            data = body.encode()
            headers = [
                ("content-length", str(len(data))),
                ("content-type", "application/x-www-form-urlencoded"),
            ]
        res = httpkit.send(
            self.cx, self.server.server, method, path, headers, data
        )
        return res.status, bytes(res.body).decode()

    def check_api(self, apps=()):
        """Every request of the interface is answered."""
        cx = self.cx
        num = self.telem.app_id.get()
        status, text = self.get("GET", "/id")
        cx.check(status == 200 and text == str(num), "its identifier")
        status, text = self.get("GET", "/types")
        cx.check(status == 200, "types")
        cx.check(
            json.loads(text) == json.loads(self.telem.type_registry.describe()),
            "its types",
        )
        status, text = self.get("GET", "/registries")
        cx.check(status == 200, "registries are described")
        found = json.loads(text)
        cx.check(
            sorted(found)
            == ["channel", "channel_groups", "enum", "services", "type"],
            "each registry",
        )
        for name, reg in self.telem.registries.items():
            cx.check(found[name] == json.loads(reg.describe()), "as it is")
        names = [
            x.name
            for x in [
                self.telem.channel_registry.get_item(i)
                for i in range(self.telem.channel_registry.count())
            ]
        ]
        cx.check(
            sorted(found["channel"]["mappings"]) == sorted(names),
            "its channels",
        )
        for app in apps:
            num = found["channel_groups"]["mappings"][app.name]
            chan = self.telem.channel_registry.get_id(app.name + ".a")
            cx.check(
                found["channel_groups"]["channel_groups"][str(num)]
                == {"a": chan},
                "its channel group",
            )

    def check_running(self, apps=()):
        """What runs after the start."""
        cx, server = self.cx, self.server
        states = server.daemons.states(False)
        for name, state in states.items():
            cx.check(state == DaemonState.RUNNING, "runs: " + name)
        cx.check(
            server.get_state()
            == (DaemonState.RUNNING if self.on["http"] else DaemonState.IDLE),
            "http runs if it's enabled",
        )
        cx.check(
            server.server.serving == (1 if self.on["http"] else 0),
            "http is served if it's enabled",
        )
        known = self.telem.registries["services"]
        for kind in KINDS[:3]:
            num = known.get_id(self.names[kind])
            cx.check((num is not None) == self.on[kind], "enabled services")
            if num is not None and kind != "http":
                found = server.daemons.get(self.names[kind])
                cx.check(
                    [tuple(x) for x in known.get_item(num)]
                    == [tuple(found.address)],
                    "the address of a service",
                )
        for name in apps:
            cx.check(name in states, "the application runs")

    def check_stopped(self):
        """What's left after the stop."""
        cx, server = self.cx, self.server
        for name, state in server.daemons.states(False).items():
            cx.check(state == DaemonState.IDLE, "stopped: " + name)
        cx.check(server.get_state() == DaemonState.IDLE, "http is stopped")
        cx.check(server.server.serving == 0, "nothing is served")
        cx.check(server.server.closed == 1, "the server is closed")
        cx.check(
            all(x.closed and x.file_closed for x in self.net.opened),
            "udp clients are closed",
        )
        cx.check(not server.udp_clients.clients, "udp clients are removed")
        cx.check(
            all(x.done for x in cx.world.tasks if x is not cx.world.main),
            "no thread is left",
        )
        cx.check(cx.free_locks(), "no lock is held")


@case(
    metrics=[None, 0.5],
    named=[False, True],
    hosted=[False, True],
    _max_paths=2000,
)
def built(cx, metrics, named, hosted):
    """Every combination can be built and describes itself."""
    mtu = cx.int("mtu", 576, 65535)
    setup = Setup(cx, (), named, hosted, metrics, mtu)
    setup.check_known()
    setup.check_api()
    cx.check(setup.net.opened == [], "no udp clients")
    cx.check(
        all(
            x == DaemonState.IDLE
            for x in setup.server.daemons.states(False).values()
        ),
        "nothing runs yet",
    )


class App:
    """An application."""

    def __init__(self, cx, server, name):
        self.cx = cx
        self.server = server
        self.name = name
        self.setups = 0
        self.loops = 0
        self.data = None
        self.group = None

    def setup(self, groups, data):
        """Called once."""
        self.cx.check(self.loops == 0, "first the setup")
        self.cx.check(groups is self.server.channel_groups, "the groups")
        self.setups += 1
        self.data = data
        self.group = groups.create_group(self.name)
        groups.add_channel(self.group, "a", Primitive.UINT8, 1.0)

    def loop(self, groups, data):
        """Called each time."""
        self.cx.check(self.setups == 1, "one setup before")
        self.cx.check(data is self.data, "the same data")
        self.loops += 1
        with groups.group(self.group) as chans:
            chans["a"] = self.loops

    def register(self):
        """Register it."""
        return self.server.register_application(
            self.name, 0.5, self.setup, self.loop
        )


@case(
    quick={"apps": [1], "clients": [2]},
    thorough={"apps": [1, 2], "clients": [0, 1, 2]},
    metrics=[None, 1.0],
    _max_paths=5000,
)
def lifecycle(cx, apps, clients, metrics):
    """Starts, runs and stops."""
    hosts = [Host("peer", 10 + i) for i in range(clients)]
    setup = Setup(cx, hosts, False, False, metrics)
    server = setup.server
    cx.check(
        [x.host for x in setup.net.opened] == [tuple(x) for x in hosts],
        "udp clients",
    )
    mine = [App(cx, server, "app" + str(i)) for i in range(apps)]
    late = [bool(cx.bool(f"late{i}")) for i in range(apps)]
    for app, after in zip(mine, late):
        if not after:
            cx.check(app.register(), "registered")
            cx.check(not app.register(), "only once")
    cx.check(all(x.setups == 0 for x in mine), "not yet")
    server.start_all()
    cx.world.idle(cx.world.now + 1.0)
    for app, after in zip(mine, late):
        if after:
            cx.check(app.register(), "registered")
            ok, res = cx.catch(app.register)
            cx.check(ok and not res, "only once")
    cx.world.idle(cx.world.now + 3.0)
    setup.check_running([x.name for x in mine])
    for app in mine:
        cx.check(app.setups == 1 and app.loops >= 2, "it runs")
        chan = setup.telem.channel_registry.get_id(app.name + ".a")
        cx.check(chan is not None, "its channel")
        cx.check(
            setup.telem.get_value(chan) == app.loops, "its value is known"
        )
    for sock in setup.net.opened:
        cx.check(not sock.closed and len(sock.sent) > 0, "telemetry is sent")
    setup.check_api(mine)
    how = cx.choice("how", ["stop", "request", "booted"])
    if how == "request":
        num = setup.telem.app_id.get()
        given = cx.choice("id", [num, num - 1, num + 1, 0, -num, num + 2**32])
        status, _ = setup.get("POST", "/shutdown", "app_id=" + str(given))
        cx.check((status == 200) == (given == num), "needs its identifier")
        if status != 200:
            setup.check_running()
            server.stop_all()
    else:
        server.stop_all()
    setup.check_stopped()
    before = [x.loops for x in mine]
    cx.world.idle(cx.world.now + 5.0)
    cx.check([x.loops for x in mine] == before, "it stays stopped")
    server.stop_all()
    cx.reach(how)


@case(_max_paths=2000)
def refused(cx):
    """Nothing but its identifier shuts a server down."""
    setup = Setup(cx)
    setup.server.start_all()
    cx.world.idle(cx.world.now + 1.0)
    body = cx.choice("body", ["", "app_id=", "app_id=x", "other=1", None])
    status, _ = setup.get("POST", "/shutdown", body)
    cx.check(status >= 400, "refused")
    setup.check_running()
    setup.server.stop_all()
    setup.check_stopped()


@case(_max_paths=2000)
def waiting(cx):
    """Waits until it's stopped or the time is over."""
    setup = Setup(cx)
    server = setup.server
    how = cx.choice("how", ["time", "stop", "booted"])
    ran = []
    start = cx.world.now
    if how == "booted":
        ok = cx.bool("fails")

        def use():
            with server.booted():
                cx.world.idle(cx.world.now + 1.0)
                setup.check_running()
                ran.append(1)
                if ok:
                    raise KeyError("own")

        good, _ = cx.catch(use)
        cx.check(ran == [1], "it ran")
        cx.check(good == cx.neg(ok), "what's raised isn't lost")
    else:
        server.start_all()
        if how == "stop":
            thread = threading.Thread(
                target=lambda: (time.sleep(2.0), server.stop_all())
            )
            thread.start()
            server.await_shutdown(cx.choice("wait", [None, 9.0]))
            thread.join()
            cx.check(cx.world.now - start < 8.0, "when it was stopped")
        else:
            server.await_shutdown(4.0)
            cx.check(cx.world.now - start >= 4.0, "for that long")
    setup.check_stopped()


@case(_max_paths=2000)
def scaled(cx):
    """The time of a running server can be scaled."""
    setup = Setup(cx)
    server = setup.server
    app = App(cx, server, "app")
    app.register()
    server.start_all()
    cx.world.idle(cx.world.now + 1.0)
    scale = cx.choice("scale", [0.5, 2.0, 4.0])
    server.scale_speed(scale)
    setup.check_running()
    first, began = app.loops, server.time_keeper.get_time()
    cx.world.idle(cx.world.now + 8.0)
    setup.check_running()
    passed = server.time_keeper.get_time() - began
    cx.check(
        abs(passed - 8.0 * scale) <= 2.0 * max(1.0, scale), "the time is scaled"
    )
    cx.check(
        abs(app.loops - first - 16.0 * scale) <= 4.0 * max(1.0, scale),
        "so is the rate of an application",
    )
    server.stop_all()
    setup.check_stopped()


@case(_max_paths=200)
def entry(cx):
    """The command line's values get to where they belong."""
    made = []

    class Fake:
        """A server."""

        def __init__(self, *args):
            self.args = args
            self.calls = []
            made.append(self)

        def start_all(self):
            """Start."""
            self.calls.append("start")

        def scale_speed(self, scale):
            """Scale."""
            self.calls.append(("scale", scale))

        def await_shutdown(self, timeout):
            """Wait."""
            self.calls.append(("wait", timeout))

    cx.patch(app_module, "TelemetryServer", Fake)
    cx.patch(
        app_module.netifaces,
        "ifaddresses",
        lambda name: {2: [{"addr": "10.0.0." + name}]},
    )
    ports = [cx.int(f"port{i}", 0, 65535) for i in range(4)]
    face = cx.choice("interface", [None, "7"])
    rates = [cx.fix(f"rate{i}", 4, 0.0625, 16.0) for i in range(4)]

    class Args:
        """Arguments."""

        interface = face
        port, ws_cmd_port, ws_tlm_port, tcp_tlm_port = ports
        tick, telem_rate, metrics_rate, time_scale = rates
        app_id = 0.5
        uptime = 3.0

    cx.check(app_module.entry(Args()) == 0, "succeeds")
    server = made[0]
    cx.check_eq(
        list(server.args[:4]), rates[:3] + [0.5], "the rates and identifier"
    )
    address = "0.0.0.0" if face is None else "10.0.0.7"
    services = server.args[4]
    for num, kind in enumerate(KINDS):
        service = getattr(services, kind)
        cx.check(service.enabled, "enabled")
        cx.check(service.host.address == address, "the address")
        cx.check_eq(service.host.port, ports[num], "the port")
    cx.check(len({getattr(services, x).name for x in KINDS}) == 4, "names")
    cx.check_eq(
        server.calls, ["start", ("scale", rates[3]), ("wait", 3.0)], "runs"
    )
