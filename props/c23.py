"""C23: the writer of frames to streams and queues."""

from pathlib import Path
from queue import Queue

import vtelem.classes.udp_client_manager as udp
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host
from vtelem.stream.writer import QueueClientManager, default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from props.frames import drain
from vsym.api import case

YIELD = True

BOUNDS = {
    "quick": "4 steps in any order (a frame with any value; adding or removing "
    "a stream or queue) of a writer with 2 streams and a queue, of which a "
    "stream fails at any frame in each way; removal at any moment of 2 "
    "frames; clients over UDP whose sockets fail anywhere",
    "thorough": "5 steps; 2 preemptions",
}
OUTSIDE = (
    "error handlers and closers that raise; queues that are full for long and "
    "not removed (the writer waits for them); a frame that's being written "
    "while its stream is removed"
)

SIZE = 4


class Frames:
    """Makes frames with any value."""

    def __init__(self, cx):
        self.cx = cx
        self.env = TelemetryEnvironment(256, 0.0, None, app_id_basis=0.5)
        self.chan = self.env.add_channel("c", Primitive.UINT8, 1.0)
        self.env.dispatch(0.5)
        drain(self.env.frame_queue)
        self.time = 0.5

    def make(self, symbolic=True):
        """A frame, and what it's written as."""
        value = len(str(self.time))
        if symbolic:
            value = self.cx.int(f"value{int(self.time)}", 0, 255)
        self.time += 2.0
        self.env.set_now(self.chan, value)
        self.env.dispatch(self.time)
        (frame,) = drain(self.env.frame_queue)
        data, size = frame.raw
        return frame, size.to_bytes(SIZE, "big") + data


MADE = []


def concrete(cx, count):
    """Frames that don't depend on anything, made once."""
    if not MADE:
        frames = Frames(cx)
        MADE.extend(frames.make(False) for _ in range(4))
    return MADE[:count]


class Out:
    """A stream that may fail."""

    def __init__(self, kind=None, when=0, name=None):
        self.kind = kind
        self.when = when
        self.got = []
        self.calls = 0
        self.flushes = 0
        if name is not None:
            self.name = name

    def write(self, data):
        """Write, or fail."""
        self.calls += 1
        if self.kind is not None and self.calls > self.when:
            if self.kind == "os":
                raise ConnectionResetError(104, "reset")
            if self.kind == "closed":
                raise ValueError("write to closed file")
            if self.kind == "short":
                return len(data) - 1
            if self.kind == "none":
                return None
        self.got.append(data)
        return len(data)

    def flush(self):
        """Flush, or fail."""
        self.flushes += 1
        if self.kind == "flush" and self.calls > self.when:
            raise BrokenPipeError(32, "broken pipe")


class Model:
    """A writer, and what its outputs should have."""

    def __init__(self, cx, metrics=True):
        self.cx = cx
        self.frames = Frames(cx)
        self.errors = []
        self.env = TelemetryEnvironment(256, 0.0, 1.0) if metrics else None
        self.writer, self.queue = default_writer(
            "w", self.errors.append, self.env
        )
        self.streams = {}
        self.queues = {}
        self.gone = []
        self.closed = []
        self.told = []
        self.counts = {
            "stream_writes": 0, "queue_writes": 0, "bytes_written": 0
        }
        self.names = 0

    def add_stream(self, out, flush=False):
        """Another stream."""
        self.names += 1
        name = self.names
        num = self.writer.add_stream(
            out, lambda: self.closed.append(name), flush
        )
        self.cx.check(num not in self.streams, "its own identifier")
        self.streams[num] = [out, [], name, 0, flush]
        return num

    def add_queue(self):
        """Another queue."""
        num, queue = self.writer.registered_queue()
        self.cx.check(num not in self.queues, "its own identifier")
        self.queues[num] = (queue, [])
        return num

    def frame(self):
        """A frame is written."""
        frame, want = self.frames.make()
        for num, item in list(self.streams.items()):
            out = item[0]
            item[3] += 1
            bad = out.kind is not None and item[3] > out.when
            if not bad or out.kind == "flush":
                item[1].append(want)
            if bad and not (out.kind == "flush" and not item[4]):
                self.told.append(num)
                self.remove(num)
            else:
                self.counts["stream_writes"] += 1
                self.counts["bytes_written"] += len(want)
        for _, got in self.queues.values():
            got.append(frame)
        self.counts["queue_writes"] += len(self.queues)
        self.queue.put(frame)
        self.cx.world.idle()

    def remove(self, num, closed=True):
        """A stream is gone."""
        item = self.streams.pop(num)
        self.gone.append(item)
        if closed:
            self.gone_names = getattr(self, "gone_names", []) + [item[2]]

    def remove_stream(self, num, close=True):
        """Remove a stream."""
        known = num in self.streams
        self.cx.check(
            self.writer.remove_stream(num, close) == known,
            "removed if it was there",
        )
        if known:
            self.remove(num, close)

    def remove_queue(self, num):
        """Remove a queue."""
        known = num in self.queues
        self.cx.check(
            self.writer.remove_queue(num) == known, "removed if it was there"
        )
        if known:
            queue, got = self.queues.pop(num)
            self.cx.check(
                drain(queue) == got + [None], "its frames, then the end"
            )
            self.late = getattr(self, "late", []) + [queue]

    def check(self):
        """Compare everything."""
        cx = self.cx
        for item in list(self.streams.values()) + self.gone:
            cx.check(len(item[0].got) == len(item[1]), "written once each")
            for got, want in zip(item[0].got, item[1]):
                cx.check_eq(bytes(got), want, "complete, and in order")
            if item[4] and item[0].kind is None:
                cx.check(item[0].flushes == len(item[1]), "flushed")
        for queue, want in self.queues.values():
            got = drain(queue)
            cx.check(
                len(got) == len(want)
                and all(x is y for x, y in zip(got, want)),
                "frames in the queue",
            )
            want.clear()
        for queue in getattr(self, "late", []):
            cx.check(queue.empty(), "nothing after the removal")
        cx.check(self.errors == self.told, "told of errors, once each")
        cx.check(
            self.closed == getattr(self, "gone_names", []), "closed, once each"
        )
        if self.env is not None:
            for name, want in self.counts.items():
                if want or name != "bytes_written":
                    cx.check(
                        self.env.get_metric("w." + name) == want,
                        "count of " + name,
                    )
            cx.check(
                self.env.get_metric("w.stream_count") == len(self.streams),
                "count of streams",
            )
            cx.check(
                self.env.get_metric("w.queue_count") == len(self.queues),
                "count of queues",
            )


@case(
    kind=["os", "closed", "short", "none", "flush"],
    metrics=[True, False],
    quick={"steps": [4]},
    thorough={"steps": [5]},
    _max_paths=100000,
)
def deliver(cx, kind, metrics, steps):
    """Frames, while outputs come, go and fail."""
    model = Model(cx, metrics)
    cx.check(model.writer.start(), "starts")
    cx.world.idle()
    when = cx.choice("when", [0, 1])
    bad = Out(kind, when, "bad" if cx.bool("named") else None)
    first = model.add_stream(bad, kind == "flush")
    second = model.add_stream(Out(), True)
    queue = model.add_queue()
    for step in range(steps):
        if step in (0, 2):
            model.frame()
            continue
        what = cx.choice(
            f"step{step}",
            ["frame", "add", "remove bad", "remove good", "remove queue"],
        )
        if what == "frame":
            model.frame()
        elif what == "add":
            model.add_stream(Out(name="new"))
            model.add_queue()
        elif what == "remove bad":
            model.remove_stream(first)
        elif what == "remove good":
            model.remove_stream(second, False)
        else:
            model.remove_queue(queue)
    model.frame()
    model.check()
    model.frame()
    model.check()
    cx.check(model.writer.stop(), "it still runs, and stops")


@case(
    how=["close", "fail", "error", "queue", "add", "stop", "handler"],
    quick={"preempt": [1]},
    thorough={"preempt": [2]},
    _max_paths=100000,
)
def together(cx, how, preempt):
    """Removal while frames are written."""
    made = concrete(cx, 3)
    errors = []
    removed = []

    def handler(num):
        errors.append(num)
        if how == "handler":
            removed.append(writer.remove_stream(num))

    writer, queue = default_writer("w", handler)
    closed = []
    bad = Out(
        "os" if how in ("fail", "handler") else None, 1
    )
    one = writer.add_stream(bad, lambda: closed.append(1))
    good = Out()
    writer.add_stream(good, lambda: closed.append(2))
    num, other = writer.registered_queue()
    writer.start()
    last, final = writer.registered_queue(maxsize=0)
    late = Out()

    def change():
        if how in ("close", "fail"):
            removed.append(writer.remove_stream(one))
            bad.kind, bad.when = "closed", 0
        elif how == "error":
            bad.kind, bad.when = "closed", 0
        elif how == "queue":
            removed.append(writer.remove_queue(num))
        elif how == "add":
            writer.add_stream(late)

    cx.world.idle()
    for frame, _ in made[:2]:
        queue.put(frame)
    cx.tasks(change, preempt=preempt)
    if how == "stop":
        # everything that was put before is written
        writer.stop()
        cx.check(len(good.got) == 2, "written before it stops")
        writer.start()
    queue.put(made[2][0])
    cx.world.idle()
    cx.check(good.got == [x[1] for x in made], "frames, in order")
    cx.check(drain(final) == [x[0] for x in made], "frames, in order")
    done = len(bad.got)
    cx.check(bad.got == [x[1] for x in made][:done], "frames, in order")
    if how in ("close", "fail", "error", "handler"):
        cx.check(closed == [1], "closed, once")
        cx.check(len(errors) <= 1, "told at most once")
        if how in ("error", "handler"):
            fails = bad.calls > done
            cx.check(errors == [one] * fails, "told once")
        if how == "close":
            cx.check(removed == [True], "removed, once")
        cx.check(bad.calls <= done + 1, "not used after it failed")
        cx.check(not writer.remove_stream(one), "it's gone")
    elif how == "queue":
        cx.check(removed == [True], "removed, once")
        got = [x for x in drain(other) if x is not None]
        cx.check(got == [x[0] for x in made][: len(got)], "frames, in order")
        cx.check(made[2][0] not in got, "nothing once it's removed")
    elif how == "add":
        count = len(late.got)
        cx.check(count >= 1, "frames from then on")
        cx.check(late.got == [x[1] for x in made][-count:], "frames, in order")
        cx.check(bad.got == good.got, "frames, in order")
    cx.check(writer.stop(), "it still runs, and stops")


@case()
def full(cx):
    """A full queue is removed."""
    made = concrete(cx, 3)
    writer, queue = default_writer("w")
    good = Out()
    writer.add_stream(good)
    num, stuck = writer.registered_queue(maxsize=1)
    _, other = writer.registered_queue()
    cx.check(writer.start(), "starts")
    for frame, _ in made:
        queue.put(frame)
    wait = cx.choice("wait", [0.0, 0.05, 0.25])
    cx.world.idle(cx.world.now + wait)
    cx.check(writer.remove_queue(num, False), "removed")
    cx.world.idle(cx.world.now + 5.0)
    cx.check(good.got == [x[1] for x in made], "frames, in order")
    cx.check(drain(other) == [x[0] for x in made], "frames, in order")
    cx.check(drain(stuck) == [made[0][0]], "what it had room for")
    cx.check(writer.stop(), "stops")


@case()
def slow(cx):
    """A full queue gets its frames once it has room."""
    made = concrete(cx, 3)
    writer, queue = default_writer("w")
    _, narrow = writer.registered_queue(maxsize=1)
    _, other = writer.registered_queue()
    cx.check(writer.start(), "starts")
    for frame, _ in made:
        queue.put(frame)
    got = []
    for step in range(3):
        wait = cx.choice(f"wait{step}", [0.0, 0.05, 0.5])
        cx.world.idle(cx.world.now + wait)
        got += drain(narrow)
    cx.world.idle(cx.world.now + 5.0)
    got += drain(narrow)
    cx.check(got == [x[0] for x in made], "frames, in order")
    cx.check(drain(other) == [x[0] for x in made], "frames, in order")
    cx.check(writer.stop(), "stops")


@case()
def files(cx):
    """Frames are written to files while they're outputs."""
    made = concrete(cx, 3)
    writer, queue = default_writer("w")
    path = Path(cx.tempdir()) / "file"
    before = cx.bool("exists")
    if before:
        path.write_bytes(b"before")
    flush, append = cx.bool("flush"), cx.bool("append")
    count = cx.choice("count", [0, 1, 2])
    cx.check(writer.start(), "starts")

    class Oops(Exception):
        """What may be raised inside."""

    def body():
        with writer.add_file(path, flush, append):
            for frame, _ in made[:count]:
                queue.put(frame)
            cx.world.idle()
            if flush:
                cx.check(path.read_bytes() == content(), "flushed")
            if cx.bool("raises"):
                raise Oops()

    def content():
        start = b"before" if before and append else b""
        return start + b"".join(x[1] for x in made[:count])

    cx.catch(body)
    queue.put(made[2][0])
    cx.world.idle()
    cx.check(path.read_bytes() == content(), "frames, in order")
    cx.check(writer.stop(), "stops")


@case()
def added(cx):
    """A stream that's an output for a while, however that ends."""
    made = concrete(cx, 3)
    writer, queue = default_writer("w")
    closer = bool(cx.bool("closer"))
    how = cx.choice("how", ["leave", "raise", "fail", "remove", "keep"])
    closed = []
    out = Out("os", 1 if how == "fail" else 9)
    other = Out()
    writer.add_stream(other)
    cx.check(writer.start(), "starts")

    def use():
        with writer.stream_added(
            out, (lambda: closed.append(1)) if closer else None
        ):
            queue.put(made[0][0])
            cx.world.idle()
            cx.check(out.got == [made[0][1]], "written while it's there")
            cx.check(closed == [], "not closed yet")
            queue.put(made[1][0])
            cx.world.idle()
            if how == "raise":
                raise KeyError("x")
            if how == "remove":
                for num, stream in list(writer.streams.items()):
                    if stream is out:
                        writer.remove_stream(num, True)

    ok, res = cx.catch(use)
    cx.check(ok == (how != "raise"), "raises what was raised")
    cx.check(ok or isinstance(res, KeyError), "and nothing else")
    cx.check(closed == [1] * closer, "closed once, if it can be")
    got = list(out.got)
    cx.check(
        got == [x[1] for x in made[: 1 if how == "fail" else 2]],
        "frames until then",
    )
    queue.put(made[2][0])
    cx.world.idle()
    cx.check(out.got == got, "nothing afterwards")
    cx.check(list(writer.streams.values()) == [other], "it's removed")
    cx.check(other.got == [x[1] for x in made], "the other gets all")
    cx.check(writer.stop(), "stops")


@case()
def clients(cx):
    """Queues of clients are closed together."""
    made = concrete(cx, 2)
    writer, queue = default_writer("w")
    manager = QueueClientManager("m", writer)
    cx.check(writer.start(), "starts")
    mine = [manager.add_client_queue() for _ in range(2)]
    _, other = writer.registered_queue()
    gone = cx.bool("gone")
    queue.put(made[0][0])
    cx.world.idle()
    if gone:
        cx.check(writer.remove_queue(mine[0][0], False), "removed")
    cx.check(manager.close_clients() == 2 - gone, "how many were closed")
    queue.put(made[1][0])
    cx.world.idle()
    for idx, (_, got) in enumerate(mine):
        end = [] if gone and idx == 0 else [None]
        cx.check(drain(got) == [made[0][0]] + end, "closed")
    cx.check(drain(other) == [x[0] for x in made], "the others aren't")
    cx.check(manager.close_clients() == 0, "closed already")
    cx.check(writer.stop(), "stops")


class Sock:
    """A socket that may fail."""

    def __init__(self, log, plan):
        self.log = log
        self.plan = plan

    def makefile(self, _):
        """Its file."""
        plan, log = self.plan, self.log

        class File(Out):
            """Its file."""

            def close(self):
                """Close it."""
                log.append("file")
                if plan == "close":
                    raise ConnectionRefusedError(111, "refused")
                if plan == "close other":
                    raise OSError(101, "unreachable")

        self.file = File("os" if plan in ("write", "close other") else None, 0)
        return self.file

    def getsockname(self):
        """Its name."""
        return ("localhost", 1)

    def close(self):
        """Close it."""
        self.log.append("socket")


@case()
def outgoing(cx):
    """UDP clients of a writer, and other streams."""
    made = concrete(cx, 2)
    plan = cx.choice("plan", ["good", "write", "close", "close other"])
    logs = [], []
    socks = [Sock(logs[0], plan), Sock(logs[1], "good")]
    order = list(socks)
    cx.patch(udp, "create_udp_socket", lambda *_, **__: order.pop(0))
    cx.patch(udp, "discover_mtu", lambda *_, **__: 1000)
    writer, queue = default_writer("w")
    manager = UdpClientManager(writer)
    cx.check(writer.start(), "starts")
    broken = Out("os", 0)
    if cx.bool("other first"):
        writer.add_stream(broken)
        first, mtu = manager.add_client(Host("localhost", 1))
    else:
        first, mtu = manager.add_client(Host("localhost", 1))
        writer.add_stream(broken)
    cx.check(mtu == 1000 - 68, "room left for frames")
    manager.add_client(Host("localhost", 2))
    good = Out()
    writer.add_stream(good)
    early = cx.bool("removed")
    if early:
        cx.catch(manager.remove_client, first)
    for frame, _ in made:
        queue.put(frame)
    cx.world.idle()
    want = [x[1] for x in made]
    cx.check(good.got == want, "other streams get every frame")
    cx.check(socks[1].file.got == want, "other clients get every frame")
    dropped = early or plan in ("write", "close other")
    if early:
        cx.check(socks[0].file.calls == 0, "nothing once it's removed")
    elif not dropped:
        cx.check(socks[0].file.got == want, "frames, in order")
    cx.check(logs[0] == ["file", "socket"] * dropped, "closed, once")
    cx.check(not logs[1], "others stay open")
    cx.check(cx.catch(manager.remove_all)[0], "removed")
    for log in logs:
        cx.check(log == ["file", "socket"], "closed, once")
    queue.put(made[0][0])
    cx.world.idle()
    cx.check(socks[1].file.got == want, "nothing once it's removed")
    cx.check(writer.stop(), "it still runs, and stops")


@case()
def alone(cx):
    """Clients over UDP that are all there is."""
    made = concrete(cx, 2)
    log = [], []
    order = [Sock(log[0], "good"), Sock(log[1], "good")]
    socks = list(order)
    cx.patch(udp, "create_udp_socket", lambda *_, **__: order.pop(0))
    cx.patch(udp, "discover_mtu", lambda *_, **__: 1000)
    writer, queue = default_writer("w")
    manager = UdpClientManager(writer)
    cx.check(writer.start(), "starts")
    count = cx.choice("count", [1, 2])
    nums = [manager.add_client(Host("h", i))[0] for i in range(count)]
    cx.check(len(set(nums)) == count, "their own identifiers")
    queue.put(made[0][0])
    cx.world.idle()
    order = list(range(count))
    if cx.bool("reverse"):
        order.reverse()
    if cx.bool("at once"):
        manager.remove_all()
    else:
        for idx in order:
            manager.remove_client(nums[idx])
            cx.check(log[idx] == ["file", "socket"], "closed, once")
            manager.remove_client(nums[idx])
    queue.put(made[1][0])
    cx.world.idle()
    for idx in range(count):
        cx.check(socks[idx].file.got == [made[0][1]], "while it's there")
        cx.check(log[idx] == ["file", "socket"], "closed, once")
    cx.check(not manager.clients and not writer.streams, "none is left")
    cx.check(writer.stop(), "stops")
