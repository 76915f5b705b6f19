"""C12: messages reassembled from fragments."""

import os

from vtelem.channel.registry import ChannelRegistry
from vtelem.message.cache import MessageCache, from_temp_dir
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.types.frame import MessageType

from vsym.api import case

BOUNDS = {
    "quick": "two messages of up to 3 fragments of arbitrary bytes, of one "
    "type or two, in every order of 4 arrivals (any fragment, repeated or "
    "not), or a fixed first part and every order of 3; a save and reload, "
    "or a restart without saving, after any arrival",
    "thorough": "5 and 6 arrivals, up to 4 fragments, two reloads",
}
OUTSIDE = (
    "more messages; a crash in the middle of writing a file; two messages "
    "of one type with the same checksum; a message sent again in fragments "
    "of another size before it was complete"
)
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
    "the YAML library writes and reads back plain documents unchanged",
]
OVERHEAD = 15 + 11 + 4
TYPES = {
    "one": (MessageType.TEXT, MessageType.TEXT),
    "two": (MessageType.JSON, MessageType.PRIMITIVE),
}


class Message:
    """A message, its fragments and what is known of them."""

    def __init__(self, framer, content, mtype, room) -> None:
        registry = ChannelRegistry()
        self.content = content
        self.mtype = mtype
        self.frames = [
            decode_frame(registry, *x.raw)
            for x in framer.serialize_message(content, 1.0, mtype)[0]
        ]
        self.crc = self.frames[0].body["message_crc"]
        self.number = self.frames[0].body["message_number"]
        assert len(self.frames) == -(-len(content) // room)
        self.seen: set = set()
        # received since the last start, and complete when last saved
        self.fresh: set = set()
        self.saved = False

    @property
    def complete(self):
        """Whether every fragment came."""
        return len(self.seen) == len(self.frames)


class Setup:
    """A cache, its messages and what handlers were told."""

    def __init__(self, cx, messages) -> None:
        self.cx = cx
        self.path = cx.tempdir() + "/cache"
        self.messages = messages
        self.told: list = []
        self.crashed = False
        self.cache = MessageCache(self.path, self.handlers())
        cx.check(self.told == [], "no handler runs for an empty cache")

    def handlers(self):
        """New handlers that record what they are given."""
        told = []
        self.told = told

        def handler(mtype, number, data):
            told.append((mtype, number, data))

        def other(mtype, number, data):
            told.append((None, number, data))

        used = {x.mtype for x in self.messages}
        res = {x: [handler] for x in used}
        for mtype in MessageType:
            if mtype not in used:
                res[mtype] = [other]
        return res

    def ingest(self, msg, idx):
        """One fragment arrives."""
        before = len(self.told)
        was = msg.complete
        known = msg.crc in self.cache.complete(msg.mtype)
        self.cache.ingest(msg.frames[idx])
        msg.seen.add(idx)
        msg.fresh.add(idx)
        if self.crashed:
            self.check_crashed()
            if not known and msg.crc in self.cache.complete(msg.mtype):
                self.told_one(before, msg)
            else:
                self.cx.check(len(self.told) == before, "no handler runs")
            return
        if msg.complete and not was:
            self.told_one(before, msg)
        else:
            self.cx.check(len(self.told) == before, "no handler runs")
        self.check()

    def told_one(self, before, msg):
        """Handlers were told about one message, once."""
        self.cx.check(len(self.told) == before + 1, "a handler runs once")
        mtype, number, data = self.told[before]
        self.cx.check(mtype == msg.mtype, "the handler of its type")
        self.cx.check(number == msg.number, "with its number")
        self.cx.check(data == msg.content, "with its content")

    def check(self):
        """The cache knows what came."""
        for mtype in MessageType:
            due = [x for x in self.messages if x.mtype is mtype and x.complete]
            got = self.cache.complete(mtype)
            self.cx.check(len(got) == len(due), "complete messages")
            for msg in due:
                self.cx.check(msg.crc in got, "complete by checksum")
        for msg in self.messages:
            self.check_content(msg, msg.complete)

    def check_content(self, msg, complete):
        """Content exactly when complete."""
        got = self.cache.content(msg.mtype, msg.crc)
        if not complete:
            self.cx.check(got is None, "no content while incomplete")
            return
        self.cx.check(got is not None, "content when complete")
        self.cx.check(got[0] == msg.number, "number of the message")
        self.cx.check(got[1] == msg.content, "content of the message")

    def check_crashed(self):
        """After a restart without saving: nothing wrong, recoverable."""
        for msg in self.messages:
            got = msg.crc in self.cache.complete(msg.mtype)
            if got:
                self.cx.check(msg.complete, "complete only if all came")
            if msg.saved or len(msg.fresh) == len(msg.frames):
                self.cx.check(got, "complete when all came again")
            self.check_content(msg, got)

    def reload(self, save):
        """Start again, with what was saved."""
        if save:
            self.cache.write()
            for msg in self.messages:
                msg.saved = msg.complete
        self.cache = MessageCache(self.path, self.handlers())
        if not save:
            self.crashed = True
            for msg in self.messages:
                msg.fresh = set()
        due = [
            x
            for x in self.messages
            if x.crc in self.cache.complete(x.mtype)
        ]
        self.cx.check(len(self.told) == len(due), "told of complete ones")
        for msg in due:
            mine = [
                x
                for x in self.told
                if x[0] is msg.mtype and x[1] == msg.number
            ]
            self.cx.check(len(mine) == 1, "told once")
            self.cx.check(mine[0][2] == msg.content, "of the content")
        if self.crashed:
            self.check_crashed()
        else:
            self.check()


def messages(cx, shape, kinds, room=1):
    """Messages of symbolic content and the given numbers of fragments."""
    framer = MessageFramer(OVERHEAD + room, 0.5)
    # numbers differ from one another
    framer.serialize_message(b"first", 1.0, kinds[1])
    out = []
    for i, num in enumerate(shape):
        size = num * room - (room > 1)
        content = cx.bytes(f"message{i}", size)
        out.append(Message(framer, content, kinds[i], room))
    if len(out) > 1 and kinds[0] is kinds[1]:
        cx.assume(cx.neg(out[0].crc == out[1].crc))
    return out


def pick(cx, name, msgs):
    """Any fragment of any message."""
    return cx.choice(
        name, [(x, i) for x in msgs for i in range(len(x.frames))]
    )


@case(
    quick={"shape": [(2, 1), (1, 3)], "steps": [3], "point": [None, 1, 2]},
    thorough={
        "shape": [(2, 2), (3, 1), (2, 3)],
        "steps": [5],
        "point": [None, 1, 2, 3, 4],
    },
    kinds=list(TYPES),
    save=[True, False],
    _max_paths=50000,
)
def orders(cx, shape, steps, point, kinds, save):
    """Every order of arrivals; reloaded at a point."""
    if point is None and not save:
        return
    msgs = messages(cx, shape, TYPES[kinds])
    setup = Setup(cx, msgs)
    setup.check()
    for step in range(steps):
        if point == step:
            setup.reload(save)
        msg, idx = pick(cx, f"arrival{step}", msgs)
        setup.ingest(msg, idx)


@case(
    quick={"shape": [(3, 3)], "first": [0, 2, 4], "kinds": ["one", "two"]},
    thorough={
        "shape": [(3, 3), (4, 2)],
        "first": [0, 2, 3, 4, 5],
        "kinds": ["one", "two"],
    },
    save=[True, False],
    room=[2],
    _max_paths=50000,
)
def from_state(cx, shape, first, kinds, save, room):
    """Some fragments of both came, a reload, then any order."""
    msgs = messages(cx, shape, TYPES[kinds], room)
    setup = Setup(cx, msgs)
    parts = [(x, i) for x in msgs for i in range(len(x.frames))]
    parts = parts[1::2] + parts[::2]
    for msg, idx in parts[:first]:
        setup.ingest(msg, idx)
    if cx.pick("twice", 2):
        setup.reload(True)
    setup.reload(save)
    for step in range(2):
        msg, idx = pick(cx, f"arrival{step}", msgs)
        setup.ingest(msg, idx)
    for msg, idx in parts:
        setup.ingest(msg, idx)
    for msg in msgs:
        cx.check(
            msg.crc in setup.cache.complete(msg.mtype), "complete in the end"
        )
    setup.reload(True)


@case(again=[0, 1, 2], _max_paths=50000)
def resent(cx, again):
    """The same message under a new number: known already."""
    framer = MessageFramer(OVERHEAD + 1, 0.5)
    content = cx.bytes("content", 2)
    one = Message(framer, content, MessageType.TEXT, 1)
    two = Message(framer, content, MessageType.TEXT, 1)
    cx.check(one.crc == two.crc, "equal checksums")
    setup = Setup(cx, [one])
    for idx in range(again):
        setup.ingest(one, idx)
    # the rest of it comes with the second transmission
    for idx in (1, 0):
        setup.cache.ingest(two.frames[idx])
    cx.check(len(setup.told) == 1, "a handler runs once")
    cx.check(setup.told[0][2] == content, "with the content")
    got = setup.cache.content(MessageType.TEXT, one.crc)
    cx.check(got[0] == two.number, "the latest number")
    cx.check(got[1] == content, "the content")


@case(shape=[(1, 2)], kinds=list(TYPES))
def forget(cx, shape, kinds):
    """A cleaned cache knows nothing and goes on."""
    msgs = messages(cx, shape, TYPES[kinds])
    setup = Setup(cx, msgs)
    for step in range(2):
        msg, idx = pick(cx, f"arrival{step}", msgs)
        setup.ingest(msg, idx)
    if cx.pick("save", 2):
        setup.cache.write()
    setup.cache.clean()
    setup.told.clear()
    for msg in msgs:
        msg.seen = set()
        msg.saved = False
    setup.check()
    for step in range(2):
        msg, idx = pick(cx, f"later{step}", msgs)
        setup.ingest(msg, idx)


@case()
def callbacks(cx):
    """Handlers added later run for later messages, in order of adding."""
    framer = MessageFramer(OVERHEAD + 1, 0.5)
    content = cx.bytes("content", 2)
    msg = Message(framer, content, MessageType.ENUM, 1)
    told = []
    with from_temp_dir() as cache:
        cx.patch(cache, "fragment_dir", cache.fragment_dir)
        for name in ("a", "b"):

            def handler(mtype, number, data, name=name):
                told.append((name, mtype, number, bytes(data)))

            cache.add_callback(MessageType.ENUM, handler)
        cache.add_callback(MessageType.TEXT, lambda *_: told.append(None))
        first = cx.pick("first", 2)
        cache.ingest(msg.frames[first])
        cx.check(told == [], "not complete yet")
        cache.ingest(msg.frames[1 - first])
        cx.check(len(told) == 2, "every handler once")
        for name, got in zip(("a", "b"), told):
            cx.check(got[0] == name, "in order")
            cx.check(got[1] is MessageType.ENUM, "type")
            cx.check(got[2] == msg.number, "number")
            cx.check(got[3] == content, "content")
        assert os.path.isdir(cache.cache_dir)
