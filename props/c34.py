"""C34: services that serve telemetry and messages to many clients."""

import asyncio
import threading
from queue import Queue

import websockets
from websockets.exceptions import ConnectionClosedError

from vtelem.client.websocket import WebsocketClient
from vtelem.classes.type_primitive import new_default
from vtelem.daemon import event_loop as loop_module
from vtelem.daemon import tcp_telemetry as tcp_module
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket import WebsocketDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer

from props import aio
from props.c28 import SIZE, decoded, environment, record
from vsym.api import case

BOUNDS = {
    "quick": "websockets: 2 clients, 4 steps in any order (connect, leave in "
    "3 ways, a frame, silence), then a stop and a restart; a client whose "
    "server ends the connection in any of 5 ways at any of 3 moments, twice; "
    "3 messages to handlers that answer, wait or fail; tcp: 2 clients, 4 "
    "steps, a client accepted while it stops with 1 preemption",
    "thorough": "5 steps; 3 clients; 2 preemptions",
}
OUTSIDE = (
    "sockets and the websockets and socketserver libraries (stand-ins that "
    "follow their documentation; the event loop is asyncio's own, waiting in "
    "virtual time); clients that are too slow for the writer's queues; more "
    "than the grace period to end a connection"
)
ASSUMPTIONS = [
    "threads take turns where they wait, other than in the case 'accepted'"
]
BUDGET = {"quick": 250}
ADDRS = [("10.0.0.1", 1), ("::1", 3, 0, 0), ("10.0.0.2", 2)]
LOCAL = ("10.0.0.9", 99)


class Frames:
    """What is served."""

    def __init__(self, cx):
        self.cx = cx
        self.env, self.chan = environment(0.25)
        self.writer, self.queue = default_writer("w", env=self.env)
        self.count = 0

    def make(self):
        """A frame, and how it's sent."""
        self.count += 1
        self.env.set_now(self.chan, self.count)
        self.env.advance_time(10.0)
        self.env.dispatch(self.env.get_time())
        out = []
        while not self.env.frame_queue.empty():
            frame = self.env.frame_queue.get(False)
            out.append((frame, bytes(
                frame.with_size_header(new_default("count"))[0]
            )))
        return out


class Served:
    """A websocket-telemetry service and its clients."""

    def __init__(self, cx, num, suspend):
        self.cx = cx
        self.net = aio.Net(cx, loop_module, websockets)
        self.frames = Frames(cx)
        self.suspend = suspend
        self.daemon = WebsocketTelemetryDaemon(
            "ws", self.frames.writer, Host(*LOCAL), self.frames.env
        )
        self.clients = [None] * num
        self.wants = [None] * num
        self.old = []

    def wait(self, amount=0.25):
        """Let everybody go on."""
        self.cx.world.idle(self.cx.world.now + amount)

    def connect(self, idx):
        """A client connects."""
        here, there = aio.link(ADDRS[idx], LOCAL, self.suspend)
        here.loop = self.net.loops[0]
        self.net.served[-1].accept(there)
        self.clients[idx] = here
        self.wants[idx] = []
        self.wait()

    def leave(self, idx, error=False):
        """A client leaves."""
        side = self.clients[idx]
        side.drop(error)
        self.old.append((side, self.wants[idx]))
        self.clients[idx] = None
        self.wait()

    def frame(self):
        """A frame for all of them."""
        for frame, data in self.frames.make():
            self.frames.queue.put(frame)
            for idx, side in enumerate(self.clients):
                if side is not None:
                    self.wants[idx].append(data)
        self.wait()

    def check(self, label):
        """Everybody has what's theirs."""
        for idx, side in enumerate(self.clients):
            if side is not None:
                got = [bytes(x) for x in side.inbox]
                self.cx.check(got == self.wants[idx], "every frame " + label)
                self.cx.check(not side.closed, "still connected " + label)
        for side, want in self.old:
            got = [bytes(x) for x in side.inbox]
            self.cx.check(got == want, "what was sent before " + label)

    def stop(self):
        """Stop it."""
        cx = self.cx
        ok, res = cx.catch(self.daemon.stop)
        cx.check(ok and res, "stopped")
        self.wait()
        for idx, side in enumerate(self.clients):
            if side is not None:
                cx.check(side.closed, "no connection is left")
                self.old.append((side, self.wants[idx]))
                self.clients[idx] = None
        cx.check(not self.frames.writer.queues, "no queue is left")
        cx.check(self.daemon.thread is None, "no thread is left")
        cx.check(self.daemon.get_state() is DaemonState.IDLE, "idle")
        cx.check(all(x.done() for x in self.net.tasks), "nothing goes on")


@case(
    quick={"steps": [4], "num": [2]},
    thorough={"steps": [5], "num": [2, 3]},
    suspend=[False, True],
)
def telemetry(cx, steps, num, suspend):
    """Every client gets every frame, whatever others do."""
    srv = Served(cx, num, suspend)
    cx.check(srv.frames.writer.start(), "writer started")
    cx.check(srv.daemon.start(), "started")
    srv.wait()
    for step in range(steps):
        what = cx.choice(f"what{step}", ["client", "frame", "silence"])
        if what == "frame":
            srv.frame()
        elif what == "silence":
            srv.wait(5.0)
        else:
            idx = cx.pick(f"client{step}", num)
            if srv.clients[idx] is None:
                srv.connect(idx)
            else:
                srv.leave(idx, cx.bool(f"error{step}"))
    srv.check("served")
    srv.frame()
    srv.check("so far")
    cx.check(
        len(srv.frames.writer.queues) == len([x for x in srv.clients if x]),
        "a queue for every client",
    )
    srv.stop()
    srv.frame()
    srv.check("after it's stopped")
    cx.check(srv.daemon.start(), "started again")
    srv.wait()
    srv.connect(num - 1)
    srv.frame()
    srv.check("when it's started again")
    srv.stop()
    cx.check(srv.frames.writer.stop(), "writer stopped")


@case(num=[2], kind=["removed", "clients", "stop"], suspend=[False, True])
def ending(cx, num, kind, suspend):
    """Clients are let go when asked to."""
    srv = Served(cx, num, suspend)
    cx.check(srv.frames.writer.start(), "writer started")
    cx.check(srv.daemon.start(), "started")
    srv.wait()
    for idx in range(num):
        srv.connect(idx)
    srv.frame()
    srv.check("before")
    if kind == "clients":
        cx.check(srv.daemon.close_clients() == num, "all of them")
        srv.wait(1.0)
        for side in srv.clients:
            cx.check(side.closed, "all connections are closed")
        cx.check(not srv.frames.writer.queues, "no queue is left")
    elif kind == "removed":
        which = cx.pick("which", num)
        ident = list(srv.frames.writer.queues)[which]
        cx.check(srv.frames.writer.remove_queue(ident), "removed")
        srv.wait(1.0)
        for idx, side in enumerate(srv.clients):
            cx.check(side.closed == (idx == which), "only that one")
        srv.clients[which] = None
        srv.frame()
        srv.check("after")
    srv.stop()
    cx.check(srv.frames.writer.stop(), "writer stopped")


FINISH = ["stop", "close", "error", "refuse", "slow"]


@case(
    quick={"rounds": [2], "lefts": [[0, 2, 4, 17]]},
    thorough={"rounds": [2, 3], "lefts": [[0, 4], list(range(SIZE))]},
    suspend=[False, True],
)
def client(cx, rounds, suspend, lefts):
    """Clients receive what's sent to them, over any number of connections."""
    secure = suspend
    net = aio.Net(cx, loop_module, websockets)
    env, chan = environment(0.25)
    other, _ = environment(0.75)
    queue = Queue()
    sides = []
    refuse = [False]

    def reach(_):
        if refuse[0]:
            raise ConnectionRefusedError(111, "refused")
        here, there = aio.link(ADDRS[0], LOCAL, suspend)
        here.loop = there.loop = net.loops[0]
        sides.append(there)
        return here

    net.reach = reach
    daemon = WebsocketClient(
        Host("10.0.0.9", 99), queue, env.channel_registry, secure, "/x",
        env.app_id, env,
    )
    for num in range(rounds):
        how = cx.choice(f"how{num}", FINISH if num < rounds - 1 else ["stop"])
        refuse[0] = how == "refuse"
        net.delay = 2.0 if how == "slow" else 0.0
        before = len(sides)
        cx.check(daemon.start(), "started")
        daemon.started.wait()
        wait = cx.bool(f"wait{num}")
        if wait:
            cx.world.idle(cx.world.now + 1.0)
            cx.check(len(net.uris) == num + 1, "one connection is asked for")
            cx.check(
                net.uris[-1]
                == ("wss" if secure else "ws") + "://10.0.0.9:99/x",
                "of the service",
            )
        if wait and how not in ("refuse", "slow"):
            cx.check(len(sides) == before + 1, "connected")
            kind = cx.choice(
                f"kind{num}", ["good", "crc", "other", "type", "empty"]
            )
            side = sides[-1]
            side.put(record(env, other, chan, "good", 1))
            side.put(record(env, other, chan, kind, 2))
            side.put(
                record(env, other, chan, "good", 3)
                + record(env, other, chan, "good", 4)
            )
            part = record(env, other, chan, "good", 5)
            left = cx.choice(f"left{num}", lefts)
            if left:
                side.peer.put(part[:left])
            # what is put there is for the client
            side.peer.inbox.extendleft(reversed(side.inbox))
            side.peer.notify()
            cx.world.idle(cx.world.now + 1.0)
            got = decoded(cx, queue, chan)
            want = [1, 2, 3, 4] if kind == "good" else [1, 3, 4]
            cx.check(got == want, "every genuine frame, once and in order")
            if how in ("close", "error"):
                side.drop(how == "error")
                cx.world.idle(cx.world.now + 1.0)
                cx.check(not daemon.connected, "not connected any more")
        ok, res = cx.catch(daemon.stop)
        cx.check(ok and res, "stopped")
        cx.world.idle(cx.world.now + 0.1)
        cx.check(daemon.thread is None, "no thread is left")
        cx.check(daemon.get_state() is DaemonState.IDLE, "idle")
        cx.check(not daemon.connected, "not connected")
        for side in sides:
            cx.check(side.closed, "no connection is left")
        cx.check(
            not [x for x in asyncio.all_tasks(net.loops[0]) if not x.done()],
            "nothing is left to do",
        )
    cx.check(queue.empty(), "nothing else")


@case(suspend=[False, True])
def together(cx, suspend):
    """A service and its own clients."""
    srv = Served(cx, 2, suspend)
    net = srv.net
    cx.check(srv.frames.writer.start(), "writer started")
    cx.check(srv.daemon.start(), "started")
    srv.wait()

    def reach(_):
        here, there = aio.link(ADDRS[len(made)], LOCAL, suspend)
        net.served[-1].accept(there)
        made.append(here)
        return here

    made = []
    net.reach = reach
    daemons = []
    for idx in range(2):
        one, out = srv.daemon.client()
        one.name = "client" + str(idx)
        daemons.append((one, out))
        cx.check(one.start(), "client started")
        srv.wait()
    for _ in range(2):
        srv.frame()
    first = cx.pick("first", 2)
    one, out = daemons[first]
    ok, res = cx.catch(one.stop)
    cx.check(ok and res, "client stopped")
    srv.frame()
    for idx, (one, out) in enumerate(daemons):
        vals = []
        for item in list(out.queue):
            for chan in item.body.get("channels", ()):
                if chan["id"] == srv.frames.chan:
                    vals.append(chan["value"])
        want = [1, 2] if idx == first else [1, 2, 3]
        cx.check(vals == want, "every value while it's connected")
    if cx.bool("server first"):
        srv.stop()
        ok, res = cx.catch(daemons[1 - first][0].stop)
        cx.check(ok and res, "client stopped")
    else:
        ok, res = cx.catch(daemons[1 - first][0].stop)
        cx.check(ok and res, "client stopped")
        srv.stop()
    cx.check(srv.frames.writer.stop(), "writer stopped")


class Oops(Exception):
    """A handler's."""


@case(suspend=[False, True], lost=[False, True])
def messages(cx, suspend, lost):
    """Every message is handled, in order, whatever other clients do."""
    net = aio.Net(cx, loop_module, websockets)
    env, _ = environment(0.25)
    seen = []
    kinds = {}

    async def consume(sock, message, path):
        seen.append((sock, message, path))
        what = kinds[message]
        if what == "wait":
            await asyncio.sleep(1.0)
        elif what == "long":
            await asyncio.sleep(100.0)
        elif what == "fail":
            raise ConnectionClosedError(None, None)
        await sock.send("re: " + message)

    daemon = WebsocketDaemon("cmd", consume, Host(*LOCAL), env)
    cx.check(daemon.start(), "started")
    cx.world.idle(cx.world.now + 0.1)
    links = [aio.link(ADDRS[i], LOCAL, suspend) for i in range(2)]
    for idx, (here, there) in enumerate(links):
        here.loop = net.loops[0]
        net.served[-1].accept(there, "/" + str(idx))
    cx.world.idle(cx.world.now + 0.1)
    orders = [[], []]
    for num in range(3):
        idx = cx.pick(f"who{num}", 2)
        text = "m" + str(num)
        kinds[text] = cx.choice(
            f"kind{num}", ["answer", "wait", "long", "fail"]
        )
        links[idx][1].put(text)
        orders[idx].append(text)
    if lost:
        links[0][0].drop(cx.bool("error"))
    cx.world.idle(cx.world.now + 10.0)
    for idx, (here, there) in enumerate(links):
        got = [(m, p) for s, m, p in seen if s is there]
        due, answers, over = [], [], lost and idx == 0
        for text in orders[idx]:
            due.append((text, "/" + str(idx)))
            if kinds[text] == "long":
                break
            if kinds[text] == "fail" or (lost and idx == 0):
                over = True
                break
            answers.append("re: " + text)
        cx.check(got == due, "each in order, until it can't go on")
        cx.check(list(here.inbox) == answers, "answered")
        cx.check(there.closed == over, "open until it's over")
    ok, res = cx.catch(daemon.stop)
    cx.check(ok and res, "stopped")
    cx.world.idle(cx.world.now + 0.1)
    cx.check(all(x[1].closed for x in links), "no connection is left")
    cx.check(daemon.get_state() is DaemonState.IDLE, "idle")
    cx.check(all(x.done() for x in net.tasks), "nothing goes on")
    cx.check(daemon.start(), "started again")
    cx.world.idle(cx.world.now + 0.1)
    here, there = aio.link(ADDRS[0], LOCAL, suspend)
    here.loop = net.loops[0]
    net.served[-1].accept(there, "/")
    kinds["again"] = "answer"
    there.put("again")
    cx.world.idle(cx.world.now + 0.1)
    cx.check(list(here.inbox) == ["re: again"], "answered again")
    cx.check(len(net.served) == 1, "one server")
    ok, res = cx.catch(daemon.stop)
    cx.check(ok and res, "stopped again")


class TcpNet:
    """A threading tcp server."""

    def __init__(self, cx):
        self.cx = cx
        self.conns = []
        self.threads = []
        self.servers = []
        net = self

        class Server:
            """Serves."""

            def __init__(self, address, handler):
                self.server_address = tuple(address)
                self.handler = handler
                self.asked = False
                self.down = threading.Event()
                self.down.set()
                self.poke = threading.Event()
                self.waiting = []
                net.servers.append(self)

            def take(self):
                """Serve those who wait."""
                while self.waiting:
                    conn = self.waiting.pop(0)
                    thread = threading.Thread(target=self.one, args=(conn,))
                    thread.start()
                    net.threads.append(thread)

            def one(self, conn):
                """Serve one."""
                try:
                    self.handler(conn, conn.addr, self)
                finally:
                    conn.closed = True

            def serve_forever(self, interval):
                """Serve until it's shut down."""
                self.down.clear()
                while not self.asked:
                    self.poke.wait(interval)
                    if self.asked:
                        break
                    self.take()
                self.asked = False
                self.poke.clear()
                self.down.set()

            def shutdown(self):
                """Stop serving."""
                self.asked = True
                # it may take until it's noticed, or not
                self.poke.set()
                self.down.wait()

        def setup(self):
            self.connection = self.request
            self.rfile = self.wfile = Out(self.request)

        base = tcp_module.socketserver.StreamRequestHandler
        cx.patch(tcp_module.socketserver, "ThreadingTCPServer", Server)
        cx.patch(base, "setup", setup)
        cx.patch(base, "finish", lambda self: None)


class Conn:
    """An accepted connection."""

    def __init__(self, addr):
        self.addr = addr
        self.got = []
        self.gone = None
        self.closed = False


class Out:
    """What is written to a connection."""

    def __init__(self, conn):
        self.conn = conn

    def write(self, data):
        """Send."""
        if self.conn.gone is not None:
            raise self.conn.gone
        self.conn.got.append(bytes(data))
        return len(data)

    def flush(self):
        """Nothing to do."""


@case(
    quick={"steps": [4], "num": [2]},
    thorough={"steps": [5], "num": [2, 3]},
)
def tcp(cx, steps, num):
    """Every tcp client gets every frame, whatever others do."""
    net = TcpNet(cx)
    frames = Frames(cx)
    # somebody else, that isn't a client
    other = Conn(None)
    order = cx.bool("other first")
    if order:
        frames.writer.add_stream(Out(other))
    daemon = TcpTelemetryDaemon("tcp", frames.writer, frames.env)
    cx.check(frames.writer.start(), "writer started")
    cx.check(daemon.start(), "started")
    total = []
    clients = [None] * num
    wants = [None] * num
    done = []

    def wait():
        cx.world.idle(cx.world.now + 0.5)

    def frame():
        for item, data in frames.make():
            frames.queue.put(item)
            total.append(data)
            for idx, conn in enumerate(clients):
                if conn is None:
                    continue
                if conn.gone is None:
                    wants[idx].append(data)
                else:
                    done.append((conn, wants[idx]))
                    clients[idx] = None
        wait()

    def check(label):
        for idx, conn in enumerate(clients):
            if conn is not None:
                cx.check(conn.got == wants[idx], "every frame " + label)
                cx.check(not conn.closed, "still connected " + label)
        for conn, want in done:
            cx.check(conn.got == want, "what was sent before " + label)
            cx.check(conn.closed, "its connection is closed " + label)
        live = len([x for x in clients if x is not None])
        cx.check(
            len(frames.writer.streams) == live + order,
            "a stream each " + label,
        )
        cx.check(
            not order or other.got == total, "others are served " + label
        )
        cx.check(
            daemon.function["metrics_data"]["clients"] == live,
            "counted " + label,
        )

    def connect(idx):
        conn = Conn(ADDRS[idx])
        net.servers[0].waiting.append(conn)
        clients[idx] = conn
        wants[idx] = []
        wait()

    def stop():
        ok, res = cx.catch(daemon.stop)
        cx.check(ok and res, "stopped")
        wait()
        for idx, conn in enumerate(clients):
            if conn is not None:
                done.append((conn, wants[idx]))
                clients[idx] = None
        cx.check(
            not [x for x in net.threads if x.is_alive()], "no thread is left"
        )
        cx.check(daemon.get_state() is DaemonState.IDLE, "idle")

    wait()
    for step in range(steps):
        if cx.bool(f"frame{step}"):
            frame()
            continue
        idx = cx.pick(f"client{step}", num)
        if clients[idx] is None:
            connect(idx)
        else:
            clients[idx].gone = (
                BrokenPipeError(32, "gone")
                if cx.bool(f"pipe{step}")
                else ConnectionResetError(104, "gone")
            )
    frame()
    check("so far")
    stop()
    frame()
    check("after it's stopped")
    cx.check(daemon.start(), "started again")
    wait()
    connect(0)
    frame()
    check("when it's started again")
    stop()
    check("after all")
    cx.check(frames.writer.stop(), "writer stopped")


@case(
    quick={"preempt": [1]},
    thorough={"preempt": [1, 2]},
    _max_paths=20000,
)
def accepted(cx, preempt):
    """A client that's accepted while the service stops is let go too."""
    net = TcpNet(cx)
    frames = Frames(cx)
    daemon = TcpTelemetryDaemon("tcp", frames.writer, frames.env)
    conn = Conn(ADDRS[0])
    made = []
    cx.check(daemon.start(), "started")
    daemon.started.wait()
    idle = cx.bool("idle")

    def serve():
        net.servers[0].one(conn)
        made.append(True)

    def stop():
        if idle:
            cx.world.idle(cx.world.now + 0.01)
        cx.check(daemon.stop(), "stopped")

    cx.tasks(serve, stop, preempt=preempt)
    cx.check(bool(made), "it's let go")
    cx.check(not frames.writer.streams, "no stream is left")
    cx.check(conn.closed, "its connection is closed")
    cx.check(
        daemon.function["metrics_data"]["clients"] == 0, "nobody is counted"
    )
