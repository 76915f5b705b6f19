"""C33: clients that receive frames from the network."""

import socket
import threading
import time
from queue import Queue

from vtelem import mtu as mtu_module
from vtelem.classes import udp_client_manager as manager_module
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.client import tcp as tcp_module
from vtelem.client import udp as udp_module
from vtelem.client.tcp import TcpClient
from vtelem.client.udp import UdpClient
from vtelem.enums.daemon import DaemonState
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer

from props.c28 import SIZE, decoded, environment, record
from vsym.api import case

BOUNDS = {
    "quick": "streams of 2 frames of any of 6 kinds cut anywhere in up to 3 "
    "chunks, with and without timeouts; 3 datagrams of any of 10 kinds; 2 "
    "connections of a client, each with a frame, any part of another and each "
    "of 5 ends; a stop while connecting",
    "thorough": "streams of 3 frames, 4 datagrams, 3 connections",
}
OUTSIDE = (
    "the sockets themselves (stand-ins that follow their documentation); "
    "connections that can't be made; messages larger than the client's limit"
)
ASSUMPTIONS = ["threads take turns where they wait"]
BUDGET = {"quick": 250}


class Net:
    """The network, as seen by a client."""

    def __init__(self, cx, kind):
        self.cx = cx
        self.kind = kind
        self.made = []
        self.plans = []
        self.delay = 0.0
        self.asked = []
        net = self

        class Conn:
            """A socket."""

            def __init__(self, host, plan):
                self.host = tuple(host)
                self.plan = list(plan)
                self.type = kind
                self.timeout = None
                self.closed = False
                self.gone = False
                self.wake = threading.Event()
                self.pending = []
                net.made.append(self)

            def settimeout(self, value):
                """Set how long it waits."""
                self.timeout = value

            def gettimeout(self):
                """How long it waits."""
                return self.timeout

            def fileno(self):
                """Its descriptor."""
                return -1 if self.closed else 7

            def valid(self):
                """It has to be open."""
                if self.closed:
                    raise OSError(9, "Bad file descriptor")

            def getsockname(self):
                """Its address."""
                self.valid()
                return ("127.0.0.1", 4000 + net.made.index(self))

            def recv(self, size):
                """Receive what's next."""
                self.valid()
                if self.plan:
                    item = self.plan.pop(0)
                    if item == "reset":
                        self.gone = True
                        # somebody else may be first to know
                        time.sleep(0.01)
                        raise ConnectionResetError(104, "reset by peer")
                    if item == "unreachable":
                        self.gone = True
                        time.sleep(0.01)
                        raise OSError(113, "no route to host")
                    if item == "timeout":
                        raise socket.timeout("timed out")
                    if kind == socket.SOCK_STREAM and len(item) > size:
                        self.plan.insert(0, item[size:])
                    return item[:size]
                if not self.wake.wait(self.timeout):
                    raise socket.timeout("timed out")
                self.valid()
                return b""

            def shutdown(self, _):
                """End the connection."""
                self.valid()
                if self.gone:
                    raise OSError(107, "not connected")
                self.wake.set()

            def sendto(self, data, address):
                """Send something, which is only done to itself."""
                self.valid()
                net.cx.check(len(data) == 0, "nothing but the end is sent")
                net.cx.check(address == self.getsockname(), "to itself")
                self.wake.set()

            def close(self):
                """Close it."""
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *_):
                self.close()

        def connect(host, *_, **__):
            net.asked.append(tuple(host))
            if net.delay:
                time.sleep(net.delay)
            return Conn(host, net.plans.pop(0))

        self.conn = Conn
        cx.patch(socket, "create_connection", connect)
        cx.patch(udp_module, "create_udp_socket", connect)


CLIENTS = {
    "tcp": (TcpClient, socket.SOCK_STREAM),
    "udp": (UdpClient, socket.SOCK_DGRAM),
}


class Setup:
    """A client, and where its frames come from."""

    def __init__(self, cx, kind, plans):
        self.cx = cx
        cls, stype = CLIENTS[kind]
        self.net = Net(cx, stype)
        self.env, self.chan = environment(0.25)
        self.other, _ = environment(0.75)
        self.queue = Queue()
        self.net.plans = plans(self)
        self.client = cls(
            Host("10.0.0.1", 99),
            self.queue,
            self.env.channel_registry,
            self.env.app_id,
            self.env,
            64,
        )

    def frame(self, kind, val):
        """A frame."""
        return record(self.env, self.other, self.chan, kind, val)

    def got(self):
        """What was delivered."""
        return decoded(self.cx, self.queue, self.chan)

    def check_stopped(self, conn, label):
        """It's stopped, and nothing is left of the connection."""
        cx, client = self.cx, self.client
        cx.check(conn.closed, "the connection is closed: " + label)
        cx.check(client.thread is None, "no thread: " + label)
        cx.check(client.get_state() is DaemonState.IDLE, "idle: " + label)


KINDS = ["good", "crc", "other", "type", "empty", "short"]


@case(
    quick={"num": [2], "symbolic": [False]},
    thorough={"num": [3], "symbolic": [False, True]},
    kinds=[KINDS],
    late=[0, 1],
)
def stream(cx, num, kinds, symbolic, late):
    """Any frames in any chunks."""
    chosen = [cx.choice(f"kind{i}", kinds) for i in range(num)]
    vals = [i + 1 for i in range(num)]
    if symbolic:
        vals[0] = cx.int("value", 0, 255)
    wants = []

    def plans(self):
        data = b""
        for kind, val in zip(chosen, vals):
            data = data + self.frame(kind, val)
            if kind == "good":
                wants.append((len(data), val))
        cut = cx.pick("cut", len(data) + 1)
        then = cx.choice("then", [1, 3, 4, SIZE])
        chunks = [data[:cut], data[cut : cut + then], data[cut + then :]]
        plan = []
        for chunk in chunks:
            if chunk:
                if late:
                    plan.append("timeout")
                plan.append(chunk)
        return [plan]

    setup = Setup(cx, "tcp", plans)
    cx.check(setup.client.start(), "started")
    cx.world.idle(cx.world.now + 1.0)
    got = setup.got()
    want = [x for _, x in wants]
    cx.check(len(got) == len(want), "every genuine frame, once")
    for one, two in zip(got, want):
        cx.check(one == two, "in order")
    cx.check(setup.client.stop(), "stopped")
    cx.check(setup.got() == [None], "then the end, once")
    setup.check_stopped(setup.net.made[0], "after a stop")


def datagram(setup, kind, val, cut):
    """A datagram."""
    if kind in KINDS:
        return setup.frame(kind, val)
    data = setup.frame("good", val)
    if kind == "cut":
        return data[: len(data) - 1 - cut]
    if kind == "head":
        return data[: 1 + cut % 3]
    if kind == "huge":
        return b"\x00\x01\x00\x00" + data[4:]
    assert kind == "long"
    return b"\x00\x00\x00\x30" + data[4:]


@case(
    quick={"num": [3]},
    thorough={"num": [4]},
    kinds=[KINDS + ["cut", "head", "huge", "long"]],
)
def datagrams(cx, num, kinds):
    """Any datagrams; what's wrong with one doesn't affect others."""
    wants = []
    cut = cx.choice("cut", [0, 1, 2, SIZE - 6])

    def plans(self):
        plan = []
        for idx in range(num):
            kind = "good"
            if idx != num - 1:
                kind = cx.choice(f"kind{idx}", kinds)
            if cx.bool(f"late{idx}"):
                plan.append("timeout")
            plan.append(datagram(self, kind, idx + 1, cut))
            if kind == "good":
                wants.append(idx + 1)
        return [plan]

    setup = Setup(cx, "udp", plans)
    cx.check(setup.client.start(), "started")
    cx.world.idle(cx.world.now + 1.0)
    cx.check(setup.got() == wants, "every genuine frame, once and in order")
    cx.check(setup.client.stop(), "stopped")
    cx.check(setup.got() == [None], "then the end, once")
    setup.check_stopped(setup.net.made[0], "after a stop")


ENDS = ["stop", "stop-reset", "reset", "unreachable", "end", "restart"]


@case(
    quick={"rounds": [2]},
    thorough={"rounds": [3]},
    kind=["tcp", "udp"],
)
def connections(cx, rounds, kind):
    """Each start has a connection of its own, however the last one ended."""
    ends = []
    wants = []

    def plans(self):
        out = []
        for idx in range(rounds):
            ways = ENDS if kind == "tcp" else ["stop", "restart"]
            if idx == rounds - 1:
                ways = ["stop"]
            end = cx.choice(f"end{idx}", ways)
            ends.append(end)
            plan = []
            if cx.bool(f"any{idx}"):
                plan.append(self.frame("good", idx + 1))
                wants.append([idx + 1])
            else:
                wants.append([])
            left = cx.pick(f"left{idx}", SIZE) if idx < rounds - 1 else 0
            if left:
                plan.append(self.frame("good", 99)[:left])
            if end in ["stop-reset", "reset"]:
                plan.append("reset")
            elif end == "unreachable":
                plan.append("unreachable")
            if end == "end":
                plan.append(b"")
            out.append(plan)
        return out

    setup = Setup(cx, kind, plans)
    client, net = setup.client, setup.net
    running = False
    for idx, end in enumerate(ends):
        if not running:
            cx.check(client.start(), "started")
        running = False
        client.started.wait()
        if end != "stop-reset":
            cx.world.idle(cx.world.now + 1.0)
        cx.check(len(net.made) == idx + 1, "a connection for each start")
        cx.check(net.made[idx].host == ("10.0.0.1", 99), "to the host")
        if end in ["stop", "stop-reset"]:
            ok, res = cx.catch(client.stop)
            cx.check(ok and res, "stopped")
        elif end == "restart":
            cx.check(client.restart(), "restarted")
            running = True
            cx.world.idle(cx.world.now + 0.001)
        else:
            cx.check(client.get_state() is DaemonState.IDLE, "it ended")
            cx.check(not client.stop(), "nothing to stop")
            client.thread.join()
            client.thread = None
            client.close()
        if end == "restart":
            cx.world.idle(cx.world.now + 1.0)
            got = setup.got()
            cut = got.index(None) if None in got else len(got)
            cx.check(got[:cut] == wants[idx], "frames of this connection")
            cx.check(got.count(None) == 1, "and the end, once")
            cx.check(net.made[idx].closed, "the connection is closed")
            # what the next one has received by now
            for item in got[cut + 1 :]:
                wants[idx + 1].remove(item)
        else:
            got = setup.got()
            cx.check(got == wants[idx] + [None], "frames, then the end, once")
            setup.check_stopped(net.made[idx], end)
    cx.check(len(net.asked) == rounds, "no other connection")


@case(kind=["tcp", "udp"])
def connecting(cx, kind):
    """Stopped while it connects."""
    setup = Setup(cx, kind, lambda self: [
        [self.frame("good", 1)], [self.frame("good", 2)],
        [self.frame("good", 3)],
    ])
    client, net = setup.client, setup.net
    cx.check(client.start(), "started")
    cx.world.idle(cx.world.now + 1.0)
    cx.check(client.stop(), "stopped")
    cx.check(setup.got() == [1, None], "frames, then the end")
    net.delay = cx.choice("delay", [0.5, 2.0])
    cx.check(client.start(), "started again")
    client.started.wait()
    when = cx.choice("when", [0.0, 0.25, 0.5, 1.0])
    cx.world.idle(cx.world.now + when)
    ok, res = cx.catch(client.stop)
    cx.check(ok and res, "stopped")
    cx.check(client.get_state() is DaemonState.IDLE, "idle")
    cx.check(all(x.closed for x in net.made), "no connection is left")
    got = setup.got()
    cx.check(got in ([None], [2, None]), "the end, once")
    net.delay = 0.0
    count = len(net.made)
    cx.check(client.start(), "started again")
    cx.world.idle(cx.world.now + 1.0)
    cx.check(len(net.made) == count + 1, "a new connection")
    cx.check(setup.got() == [3], "its frames")
    cx.check(client.stop(), "stopped")
    cx.check(setup.got() == [None], "then the end")
    setup.check_stopped(net.made[-1], "at last")


class Plain:
    """A socket for finding out things."""

    made = []

    def __init__(self, cx, fails=None):
        self.cx = cx
        self.opts = {}
        self.closed = False
        self.bound = None
        self.peer = None
        self.fails = fails
        self.sent = []
        self.port = 0
        self.mtu = 0

    def bind(self, host):
        """Bind it."""
        self.bound = tuple(host)

    def connect(self, host):
        """Connect it."""
        self.peer = tuple(host)

    def setsockopt(self, level, opt, value):
        """Set an option."""
        assert not self.closed
        self.opts[(int(level), int(opt))] = value

    def getsockopt(self, level, opt):
        """Get an option."""
        assert not self.closed
        if (int(level), int(opt)) == (0, 14):
            return self.mtu
        return self.opts[(int(level), int(opt))]

    def getsockname(self):
        """Its address."""
        assert not self.closed
        return ("0.0.0.0", self.port)

    def send(self, data):
        """Send something."""
        assert not self.closed
        self.sent.append((bytes(data), self.opts[(0, 10)]))
        if self.fails:
            raise self.fails
        return len(data)

    def close(self):
        """Close it."""
        self.closed = True


@case(sent=["sent", "long", "refused"], whole=[True, False])
def discovery(cx, sent, whole):
    """The mtu is what the network says; options are as they were."""
    fails = {
        "sent": None,
        "long": OSError(90, "Message too long"),
        "refused": ConnectionRefusedError(111, "refused"),
    }[sent]
    sock = Plain(cx, fails)
    before = cx.int("option", 0, 5)
    sock.opts[(0, 10)] = before
    sock.mtu = cx.int("mtu", 68, 65535)
    sock.port = 1234
    size = cx.choice("probe", [64, 500, 1400])
    if whole:
        cx.patch(mtu_module.socket, "socket", lambda *_: sock)
        res = mtu_module.discover_ipv4_mtu(Host("10.0.0.1", 99), size)
        cx.check(sock.peer == ("10.0.0.1", 99), "to the host")
        cx.check(sock.closed, "the socket is closed")
    else:
        res = mtu_module.discover_mtu(sock, size)
        cx.check(not sock.closed, "the socket is left open")
    cx.check_eq(res, sock.mtu, "what the network says")
    cx.check_eq(sock.opts[(0, 10)], before, "the option is restored")
    cx.check(len(sock.sent) == 1, "one probe")
    cx.check(sock.sent[0][1] == 2, "that isn't fragmented")
    cx.check(len(sock.sent[0][0]) <= size + 4, "of at most that size")


@case(kind=["tcp", "udp"], zero=[True, False])
def ports(cx, kind, zero):
    """A host without a port gets one that's free."""
    made = []

    def make(*args):
        sock = Plain(cx)
        sock.args = args
        sock.port = cx.int("port", 1, 65535)
        made.append(sock)
        return sock

    cx.patch(mtu_module.socket, "socket", make)
    stype = CLIENTS[kind][1]
    given = 0 if zero else cx.int("given", 1, 65535)
    host = mtu_module.host_resolve_zero(stype, Host("10.0.0.1", given))
    cx.check(host.address == "10.0.0.1", "its address")
    if zero:
        cx.check(len(made) == 1 and made[0].closed, "nothing is left open")
        cx.check(made[0].args[1] == stype, "of this kind")
        cx.check(made[0].bound == ("10.0.0.1", 0), "any port")
        cx.check_eq(host.port, made[0].port, "the one that's free")
    else:
        cx.check(not made, "nothing to find out")
        cx.check_eq(host.port, given, "the given one")


@case(broken=[False, True])
def created(cx, broken):
    """A client of a manager receives what the manager sends to it."""
    net = Net(cx, socket.SOCK_DGRAM)
    net.plans = [[]]
    opened = []
    limit = cx.int("mtu", 700, 9000)
    closed = []

    class Out:
        """A socket of the manager."""

        def __init__(self, host):
            self.host = tuple(host)
            opened.append(self)

        def getsockname(self):
            """Its address."""
            return ("127.0.0.1", 9)

        def makefile(self, _):
            """A file."""
            return self

        def write(self, data):
            """Send."""
            return len(data)

        def flush(self):
            """Nothing to do."""

        def close(self):
            """Close it."""
            closed.append(self)

    cx.patch(manager_module, "create_udp_socket", Out)
    cx.patch(manager_module, "discover_mtu", lambda sock: limit)
    cx.patch(udp_module, "get_free_port", lambda *_, **__: 4321)
    env, _ = environment(0.25)
    writer, _ = default_writer("w", env=env)
    manager = UdpClientManager(writer)

    class Oops(Exception):
        """Raised by a user."""

    try:
        with udp_module.create(manager, env) as (client, queue):
            cx.check(len(net.made) == 1, "one socket to receive")
            cx.check(net.made[0].host == ("0.0.0.0", 4321), "the free port")
            cx.check(len(opened) == 1, "one to send")
            cx.check(opened[0].host[1] == 4321, "to that port")
            cx.check_eq(client.mtu, limit - 68, "its mtu")
            cx.check(client.frames is queue, "the queue")
            cx.check(client.expected_id is env.app_id, "of that application")
            cx.check(len(manager.clients) == 1, "a client of the manager")
            if broken:
                raise Oops()
    except Oops:
        cx.check(broken, "raised by us")
    cx.check(not manager.clients, "no client is left")
    cx.check(opened[0] in closed, "and its socket is closed")
