"""C28: playback of recorded frames."""

from pathlib import Path
from queue import Queue

from vtelem.classes.type_primitive import new_default
from vtelem.client.file import FileClient, FileDecodeTask
from vtelem.enums.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import StreamWriter
from vtelem.telemetry.environment import TelemetryEnvironment

from props.frames import drain
from vsym.api import case

BOUNDS = {
    "quick": "3 frames (one of any value), 4 for up to 4 runs; each frame intact, with an "
    "invalid checksum, of another application, of an unknown type, empty or "
    "too short; every limit and every point where the file grows, 4 sizes "
    "read at a time; recorded by a writer into a real file",
    "thorough": "4 to 6 frames (two of any values)",
}
OUTSIDE = "frames that are larger than the client's limit for them"
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]


class FakeFile:
    """A file of which parts may not be written yet."""

    def __init__(self, cx):
        self.cx = cx
        self.name = "file.vtelem"
        self.data = b""
        self.pos = 0
        self.reads = 0
        self.open_count = 0
        self.hook = None

    def open(self, mode):
        """Open it."""
        assert mode == "rb"
        self.open_count += 1
        self.pos = 0
        return self

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.open_count -= 1

    def seek(self, pos):
        """Set the position."""
        self.pos = pos

    def tell(self):
        """The position."""
        return self.pos

    def read(self, size):
        """Read from it."""
        self.reads += 1
        if self.reads > 60:
            self.cx.fail("reads on at the end")
        res = self.data[self.pos : self.pos + size]
        self.pos += len(res)
        if self.hook is not None:
            self.hook()
        return res


def record(env, other, chan, kind, val):
    """A recorded frame, with its size."""
    source = other if kind == "other" else env
    source.set_now(chan, val)
    source.advance_time(10.0)
    source.dispatch_data(source.get_time())
    frame = source.frame_queue.get(False)
    data, _ = frame.with_size_header(new_default("count"))
    data = bytes(data)
    if kind == "crc":
        data = data[:-1] + bytes([data[-1] ^ 1])
    elif kind == "type":
        data = data[:6] + b"\x09" + data[7:]
    elif kind == "empty":
        data = b"\0\0\0\0"
    elif kind == "short":
        data = b"\0\0\0\2" + data[4:6]
    return data


def environment(basis):
    """An environment with a channel."""
    env = TelemetryEnvironment(64, 1.0, None, app_id_basis=basis)
    return env, env.add_channel("a", Primitive.UINT8, 1.0)


def decoded(cx, queue, chan):
    """Values of the frames delivered, None for the end."""
    out = []
    for item in drain(queue):
        if item is None:
            out.append(None)
            continue
        chans = item.body["channels"]
        cx.check(len(chans) == 1 and chans[0]["id"] == chan, "as recorded")
        out.append(chans[0]["value"])
    return out


KINDS = ["good", "crc", "other", "type", "empty", "short"]
SIZE = 4 + 15 + 2 + 1 + 4


class Playback:
    """A file, its client and what it should deliver."""

    def __init__(self, cx, num, kinds, mtu, values):
        self.cx = cx
        self.env, self.chan = environment(0.25)
        other, _ = environment(0.75)
        self.content = []
        self.good = []
        for idx in range(num):
            kind = cx.choice(f"kind{idx}", kinds)
            val = values(idx)
            self.content.append(
                record(self.env, other, self.chan, kind, val)
            )
            if kind == "good":
                # number of bytes until it's complete, and what it holds
                self.good.append((sum(map(len, self.content)), val))
        self.all = b"".join(self.content)
        self.queue = Queue()
        self.file = FakeFile(cx)
        self.client = FileClient(
            FileDecodeTask(self.file),
            self.queue,
            self.env.channel_registry,
            self.env.app_id,
            self.env,
            mtu,
        )
        self.done = 0

    def play(self, written, limit):
        """Run the client on a part of the file, up to a limit."""
        cx = self.cx
        self.file.data = self.all[:written]
        self.client.task = FileDecodeTask(
            self.file, self.client.task.byte_index, limit
        )
        cx.check(self.client.start(), "starts")
        cx.world.idle()
        cx.check(self.client.get_state() == DaemonState.IDLE, "ends")
        cx.check(self.file.open_count == 0, "the file is closed")
        got = decoded(cx, self.queue, self.chan)
        ready = [val for pos, val in self.good if pos <= written]
        end = len(ready)
        if limit is not None and limit <= end:
            cx.reach("limited")
            end = max(self.done, limit)
            want = ready[self.done : end]
        else:
            want = ready[self.done :] + [None]
        cx.check(len(got) == len(want), "frames delivered")
        for one, two in zip(got, want):
            if one is None or two is None:
                cx.check(one is None and two is None, "the end comes last")
            else:
                cx.check(one == two, "in order")
        self.done = max(self.done, end)


@case(
    quick={"num": [1], "mtu": [22, 40]},
    thorough={"num": [2], "mtu": [22, 40]},
    _max_paths=20000,
)
def values(cx, num, mtu):
    """Frames with any values."""
    plays(cx, num, mtu, lambda idx: cx.int(f"value{idx}", 0, 255))


@case(
    quick={"num": [3], "mtu": [22, 40]},
    thorough={"num": [4], "mtu": [22, 27, 40, 200]},
    _max_paths=20000,
)
def limits(cx, num, mtu):
    """Any limit, and frames of all kinds."""
    plays(cx, num, mtu, lambda idx: idx + 1)


def plays(cx, num, mtu, vals):
    """A file is played at once."""
    play = Playback(cx, num, KINDS, mtu, vals)
    if cx.bool("limited"):
        limit = cx.int("limit", 0, num + 1)
    else:
        limit = None
    play.play(len(play.all), limit)


@case(
    quick={"num": [4], "mtu": [22, 30, 57, 100]},
    thorough={"num": [6], "mtu": [22, 23, 30, 31, 57, 100]},
    _max_paths=20000,
)
def continues(cx, num, mtu):
    """It's played in parts, with any limits."""
    play = Playback(
        cx,
        num,
        ["good", "crc"],
        mtu,
        lambda idx: idx + 1,
    )
    limit = 0
    for step in range(3):
        if step == 2:
            # without a limit, or one that isn't reached
            limit = cx.choice("last", [None, 99])
        else:
            # of all runs together
            limit = cx.int(f"limit{step}", 1, num)
        play.play(len(play.all), limit)
    play.play(len(play.all), None)


@case(
    quick={"num": [2], "mtu": [22, 30]},
    thorough={"num": [3], "mtu": [22, 30, 100]},
    _max_paths=20000,
)
def grows(cx, num, mtu):
    """The file is written meanwhile."""
    play = Playback(
        cx, num, ["good", "crc"], mtu, lambda idx: idx + 1
    )
    written = 0
    for step in range(3):
        if step == 2:
            written = len(play.all)
        else:
            written = written + cx.pick(f"more{step}", SIZE + 2)
            written = min(written, len(play.all))
        play.play(written, None)


@case(mtu=[22, 40], num=[4])
def stops(cx, num, mtu):
    """It's told to stop, and continues later."""
    play = Playback(
        cx, num, ["good", "crc"], mtu, lambda idx: idx + 1
    )
    play.file.data = play.all
    when = cx.pick("when", 6)
    limit = cx.choice("limit", [None, 2])

    def hook():
        if play.file.reads == when + 1:
            play.client.begin_stop()

    play.file.hook = hook
    play.client.task = FileDecodeTask(play.file, 0, limit)
    cx.check(play.client.start(), "starts")
    cx.world.idle()
    cx.check(play.client.get_state() == DaemonState.IDLE, "ends")
    got = decoded(cx, play.queue, play.chan)
    if None in got:
        cx.check(got.index(None) == len(got) - 1, "the end comes last")
        got.pop()
    play.file.hook = None
    play.client.task = FileDecodeTask(
        play.file, play.client.task.byte_index, None
    )
    cx.check(play.client.start(), "starts again")
    cx.world.idle()
    rest = decoded(cx, play.queue, play.chan)
    cx.check(rest[-1] is None, "the end comes last")
    got += rest[:-1]
    cx.check(len(got) == len(play.good), "frames delivered")
    for one, (_, two) in zip(got, play.good):
        cx.check(one == two, "in order")


@case(
    quick={"num": [3]},
    thorough={"num": [5]},
)
def records(cx, num):
    """Frames are recorded by a writer, and played."""
    env, chan = environment(0.25)
    frames = Queue()
    writer = StreamWriter("writer", frames, env)
    path = Path(cx.tempdir()) / "data.vtelem"
    values = []
    with writer.add_file(path, flush=cx.bool("flush")):
        cx.check(writer.start(), "the writer starts")
        for idx in range(num):
            val = cx.choice(f"value{idx}", [1, 2, 255])
            env.set_now(chan, val)
            env.advance_time(10.0)
            env.dispatch_data(env.get_time())
            for item in drain(env.frame_queue):
                frames.put(item)
            values.append(val)
        cx.world.idle()
        cx.check(writer.stop(), "the writer stops")
    queue = Queue()
    mtu = cx.choice("mtu", [22, 40, 64])
    client = FileClient(
        FileDecodeTask(path, 0, None),
        queue,
        env.channel_registry,
        env.app_id,
        env,
        mtu,
    )
    cx.check(client.start(), "starts")
    cx.world.idle()
    cx.check(decoded(cx, queue, chan) == values + [None], "frames delivered")
    cx.check(client.task.byte_index == SIZE * num, "position")
