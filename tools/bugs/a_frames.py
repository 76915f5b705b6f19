bug("c01-falsy", "C01",
    [("vtelem/channel/framer.py", "                if result is not None:\n", "                if result is not None and (\n                    curr_frame.count[\"value\"] or result\n                ):\n")],
    "a dispatch whose first emission of a frame is a zero or False value",
    "emissions of zero values that would come first in a frame are lost",
    '''
    from queue import Queue
    from vtelem.channel import Channel
    from vtelem.channel.framer import ChannelFramer
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.enums.primitive import Primitive
    from vtelem.parsing.encapsulation import decode_frame

    reg = ChannelRegistry()
    chans = [Channel(x, Primitive.UINT8, 1.0) for x in "abc"]
    for chan in chans:
        assert reg.add_channel(chan)[0]
    framer = ChannelFramer(64, reg, chans, OptionalRLock(True))
    chans[1].set(5)
    queue = Queue()
    framer.build_data_frames(1.0, queue)
    got = []
    while not queue.empty():
        frame = decode_frame(reg, *queue.get().raw)
        got += [(x["channel"].name, x["value"]) for x in frame.body["channels"]]
    assert got == [("a", 0), ("b", 5), ("c", 0)], got
    ''')

bug("c02-message-crc", "C02",
    [("vtelem/frame/__init__.py", "        self.crc = None\n        if use_crc:\n            self.crc = new_default(\"crc\")\n            self.used += self.crc.size()\n        self.overhead = self.used\n", "        self.crc = None\n        self.overhead = self.used\n        if use_crc:\n            self.crc = new_default(\"crc\")\n            self.used += self.crc.size()\n")],
    "a message whose last bytes would fill the space of the checksum",
    "message frames can exceed the MTU by the size of the checksum",
    '''
    from vtelem.message.framer import MessageFramer

    for size in range(1, 80):
        frames, total = MessageFramer(64, 0.5).serialize_message(bytes(size), 1.0)
        for frame in frames:
            assert frame.raw[1] <= 64, (size, frame.raw[1])
    ''')

bug("c04-identity", "C04",
    [("vtelem/classes/type_primitive.py", "            if self.changed_cb is not None and prev_data != data:\n", "            if self.changed_cb is not None and prev_data is not self.data:\n")],
    "an equal value stored as another object (a large integer or a float)",
    "storing an equal value queues a change event",
    '''
    from vtelem.channel import Channel
    from vtelem.classes.event_queue import EventQueue
    from vtelem.enums.primitive import Primitive

    events = EventQueue()
    chan = Channel("a", Primitive.UINT32, 1.0, events)
    assert chan.set(int("70000"), 1.0)
    assert chan.set(int("70000"), 2.0)
    assert len(events.consume()) == 1
    ''')

bug("c05-rate-reset", "C05",
    [("vtelem/channel/__init__.py", "        self.rate = rate\n\n    def emit", "        self.rate = rate\n        self.last_emitted = float()\n\n    def emit")],
    "a rate change between two emissions",
    "a rate change forgets the last emission, so that the next comes too early",
    '''
    from vtelem.channel import Channel
    from vtelem.enums.primitive import Primitive

    chan = Channel("a", Primitive.UINT8, 1.0)
    assert chan.emit(10.0) is not None
    chan.set_rate(5.0)
    assert chan.emit(12.0) is None
    assert chan.emit(15.0) is not None
    ''')

bug("c07-pos-zero", "C07",
    [("vtelem/classes/byte_buffer.py", "            if pos is not None:\n                self.set_pos(orig_pos)\n", "            if pos:\n                self.set_pos(orig_pos)\n")],
    "a read or write at position zero of a buffer that is in use",
    "the buffer stays at the start, so that the next write overwrites what is there",
    '''
    from vtelem.classes.byte_buffer import ByteBuffer
    from vtelem.classes.type_primitive import TypePrimitive
    from vtelem.enums.primitive import Primitive

    buf = ByteBuffer()
    prim = TypePrimitive(Primitive.UINT16)
    for val in (1, 2, 3):
        assert prim.set(val)
        prim.write(buf)
    assert prim.set(9)
    prim.write(buf, 0)
    assert prim.set(4)
    prim.write(buf)
    assert bytes(buf.data[: buf.size]) == b"\\0\\x09\\0\\x02\\0\\x03\\0\\x04"
    ''')

bug("c08-mtu-header", "C08",
    [("vtelem/frame/processor.py", "        if self.size > mtu:\n", "        if self.size > mtu + frame_size.size():\n")],
    "a header announcing up to four bytes more than the MTU",
    "frames larger than the MTU are yielded",
    '''
    from vtelem.classes.type_primitive import new_default
    from vtelem.frame.processor import FrameProcessor

    size = new_default("count")
    for length in range(30, 40):
        data = bytes(length)
        stream = length.to_bytes(size.size(), "big") + data
        got = FrameProcessor().process(stream, size, 32)
        assert len(got) == (length <= 32), length
    ''')

bug("c09-crc-skip", "C09",
    [("vtelem/parsing/encapsulation.py", "        if footer.crc != buf.crc32():\n            LOG", "        if footer.crc and footer.crc != buf.crc32():\n            LOG")],
    "a frame whose footer was overwritten with zeros",
    "a frame with a zero footer is delivered although its content does not match",
    '''
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.message.framer import MessageFramer
    from vtelem.parsing.encapsulation import decode_frame

    frames, _ = MessageFramer(64, 0.5).serialize_message(b"hello", 1.0)
    data, size = frames[0].raw
    data = bytearray(data[:size])
    assert decode_frame(ChannelRegistry(), data, size) is not None
    data[-4:] = bytes(4)
    data[-6] ^= 1
    assert decode_frame(ChannelRegistry(), data, size) is None
    ''')

bug("c12-padding", "C12",
    [("vtelem/message/cache.py", "crc_data[int(fragment)] = frag.read()", "crc_data[int(fragment)] = frag.read().rstrip(b\"\\0\")")],
    "a restart after a fragment that ends with zero bytes",
    "a message loaded from disk loses zero bytes at the ends of fragments",
    '''
    import tempfile

    from vtelem.channel.registry import ChannelRegistry
    from vtelem.message.cache import MessageCache
    from vtelem.message.framer import MessageFramer
    from vtelem.parsing.encapsulation import decode_frame
    from vtelem.types.frame import MessageType

    msg = b"start" + bytes(40)
    frames, _ = MessageFramer(46, 0.5).serialize_message(msg, 1.0)
    frames = [decode_frame(ChannelRegistry(), *x.raw) for x in frames]
    assert len(frames) > 1
    with tempfile.TemporaryDirectory() as place:
        cache = MessageCache(place + "/cache")
        told = []
        for frame in frames[:-1]:
            cache.ingest(frame)
        cache.write()
        cache = MessageCache(place + "/cache")
        cache.add_callback(MessageType.AGNOSTIC, lambda *x: told.append(x))
        cache.ingest(frames[-1])
        assert len(told) == 1 and bytes(told[0][2]) == msg, told
    ''')
