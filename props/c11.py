"""C11: messages in fragments."""

import json
import zlib

from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.user_enum import UserEnum
from vtelem.message.cache import MessageCache
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.types.frame import FrameType, MessageType

from props.frames import CRC, HEAD
from vsym.api import case

BOUNDS = {
    "quick": "messages of 1..10 arbitrary bytes with 1..5 bytes per "
    "fragment, with and without checksum, every type, any time and "
    "application id; texts of 1..3 arbitrary characters",
    "thorough": "messages of up to 24 bytes and 1..9 per fragment; texts of "
    "5 characters",
}
OUTSIDE = (
    "longer messages (more than 65535 fragments can't be numbered); the "
    "empty message, which has no fragments"
)
ASSUMPTIONS = [
    "checksums of symbolic bytes are an uninterpreted function of them",
]
FIELDS = 1 + 2 + 4 + 2 + 2


def overhead(crc):
    """Bytes of a message frame besides the fragment."""
    return HEAD + FIELDS + (CRC if crc else 0)


def check_frames(cx, frames, message, what):
    """Fragments in order are the message."""
    mtype, number, room, crc, app_id, time = what
    registry = ChannelRegistry()
    total = -(-len(message) // room)
    cx.check(len(frames) == total, "number of fragments")
    parsed = []
    start = 0
    for idx, frame in enumerate(frames):
        data, size = frame.raw
        cx.check(size <= room + overhead(crc), "within the MTU")
        got = decode_frame(registry, data, size)
        cx.check(got is not None, "decodable")
        cx.check(got.header.type == FrameType.MESSAGE, "a message frame")
        cx.check(got.header.app_id == app_id, "application id")
        cx.check(got.header.timestamp == time, "timestamp")
        body = got.body
        cx.check(body["message_type"] == mtype.value, "message type")
        cx.check(body["message_number"] == number, "message number")
        cx.check(body["message_crc"] == zlib.crc32(message), "checksum")
        cx.check(body["fragment_index"] == idx, "fragment index")
        cx.check(body["total_fragments"] == total, "number of all fragments")
        part = message[start : start + room]
        start += room
        cx.check(len(body["fragment_bytes"]) == len(part), "fragment size")
        cx.check(body["fragment_bytes"] == part, "fragment content")
        cx.check((got.footer.crc is not None) == crc, "footer")
        parsed.append(got)
    return parsed


@case(
    quick={
        "size": [1, 2, 3, 4, 6, 10],
        "room": [1, 2, 3, 5],
        "crc": [True, False],
    },
    thorough={
        "size": [1, 2, 4, 5, 7, 8, 9, 12, 16, 24],
        "room": [1, 2, 3, 4, 7, 8, 9],
        "crc": [True, False],
    },
)
def fragments(cx, size, room, crc):
    """Any message, framed, decoded and put together."""
    framer = MessageFramer(overhead(crc) + room, 0.5, crc)
    app_id = cx.int("app", 0, 65535)
    assert framer.primitives["app_id"].set(app_id)
    time = cx.fix("time", 3, 0, 2**41)
    mtype = cx.choice("type", list(MessageType))
    message = cx.bytes("message", size)
    frames, total = framer.serialize_message(message, time, mtype)
    what = (mtype, 0, room, crc, app_id, int(time * 8) * 125)
    parsed = check_frames(cx, frames, message, what)
    cx.check(total == sum(x.raw[1] for x in frames), "bytes in total")
    cache = MessageCache(cx.tempdir() + "/cache")
    for idx, got in enumerate(parsed):
        cx.check(cache.complete(mtype) == [], "not complete before the last")
        cache.ingest(got)
    cx.check(len(cache.complete(mtype)) == 1, "complete")
    cx.check(cache.complete(mtype)[0] == zlib.crc32(message), "by checksum")
    number, content = cache.content(mtype, cache.complete(mtype)[0])
    cx.check(number == 0, "number of the message")
    cx.check(content == message, "content of the message")


@case(
    quick={"sizes": [(1, 3), (4, 4)], "room": [2]},
    thorough={"sizes": [(5, 2), (6, 6), (1, 1)], "room": [1, 2, 3]},
)
def sequence(cx, sizes, room):
    """Several messages: numbers per type, checksums by content."""
    framer = MessageFramer(overhead(True) + room, 0.5)
    app_id = framer.primitives["app_id"].get()
    counts = {x: 0 for x in MessageType}
    sent = []
    contents = [cx.bytes(f"message{i}", x) for i, x in enumerate(sizes)]
    for i in range(3):
        mtype = cx.choice(
            f"type{i}",
            [MessageType.TEXT, MessageType.JSON, MessageType.PRIMITIVE],
        )
        size = sizes[i % 2]
        message = contents[i % 2]
        time = i + 1.0
        frames, _ = framer.serialize_message(message, time, mtype)
        what = (mtype, counts[mtype], room, True, app_id, 1000 * (i + 1))
        sent.append(check_frames(cx, frames, message, what))
        counts[mtype] += 1
    one, two = sent[0][0].body, sent[2][0].body
    cx.check(one["message_crc"] == two["message_crc"], "equal messages")


@case(mtype=[x.name for x in MessageType])
def numbers(cx, mtype):
    """Numbers of messages are consecutive and start over at the end."""
    mtype = MessageType[mtype]
    framer = MessageFramer(overhead(True) + 2, 0.5)
    start = cx.int("start", 0, 65535)
    if start > 0:
        framer.message_numbers[mtype] = start
    registry = ChannelRegistry()
    got = []
    for i in range(3):
        frames, _ = framer.serialize_message(b"abc", 1.0, mtype)
        nums = [
            decode_frame(registry, *x.raw).body["message_number"]
            for x in frames
        ]
        cx.check(nums[0] == nums[1], "one number per message")
        got.append(nums[0])
    for left, right in zip(got, got[1:]):
        cx.check(right == (left + 1) % 65536, "consecutive")


@case(
    quick={"size": [1, 2, 3], "room": [1, 4]},
    thorough={"size": [1, 2, 4, 5], "room": [1, 2, 3, 6]},
    high=[0x7F, 0xFF],
    _max_paths=100000,
)
def text(cx, size, room, high):
    """Texts are sent as UTF-8."""
    message = cx.text("text", size, 1, high)
    framer = MessageFramer(overhead(True) + room, 0.5)
    frames, _ = framer.serialize_message_str(message, 1.0)
    data = message.encode()
    what = (
        MessageType.TEXT, 0, room, True,
        framer.primitives["app_id"].get(), 1000,
    )
    parsed = check_frames(cx, frames, data, what)
    cache = MessageCache(cx.tempdir() + "/cache")
    for got in parsed:
        cache.ingest(got)
    crc = cache.complete(MessageType.TEXT)[0]
    number, content = cache.content_str(MessageType.TEXT, crc)
    cx.check(number == 0, "number of the message")
    cx.check(content == message, "the text")


TEXTS = ["x", "\u00e9\u20ac", "line\nend", "\U0001f600 ok"]


@case(room=[1, 3, 8], word=TEXTS)
def documents(cx, room, word):
    """Documents and objects travel as their JSON text."""
    framer = MessageFramer(overhead(True) + room, 0.5)
    number = cx.choice("number", [0, -5, 2.5, None, True])
    doc = {"word": word, "list": [number, {"a": word}]}
    app_id = framer.primitives["app_id"].get()
    frames, _ = framer.serialize_message_json(doc, 1.0)
    data = json.dumps(doc).encode()
    what = (MessageType.JSON, 0, room, True, app_id, 1000)
    parsed = check_frames(cx, frames, data, what)
    enum = UserEnum({"name": "e", "mappings": {0: "a", 1: word}, "default": "a"})
    frames, _ = framer.serialize_object(enum, 2.0, MessageType.ENUM)
    data = enum.json_str().encode()
    what = (MessageType.ENUM, 0, room, True, app_id, 2000)
    parsed = parsed + check_frames(cx, frames, data, what)
    cache = MessageCache(cx.tempdir() + "/cache")
    for got in parsed:
        cache.ingest(got)
    crc = cache.complete(MessageType.JSON)[0]
    cx.check(
        json.loads(cache.content_str(MessageType.JSON, crc)[1]) == doc,
        "the document",
    )
    crc = cache.complete(MessageType.ENUM)[0]
    cx.check(
        json.loads(cache.content_str(MessageType.ENUM, crc)[1])
        == json.loads(enum.json_str()),
        "the object",
    )
