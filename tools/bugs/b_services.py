bug("c13-check-outside", "C13",
    [("vtelem/registry/__init__.py", "        with self.lock:\n            if self.get_id(name) is not None:\n                result = (False, -1)\n            else:\n                self.data[self.type_name][self.curr_id] = data\n", "        known = self.get_id(name) is not None\n        with self.lock:\n            if known:\n                result = (False, -1)\n            else:\n                self.data[self.type_name][self.curr_id] = data\n")],
    "two threads that register one name, both of which look before either adds",
    "a name is registered twice, and the first identifier is orphaned",
    '''
    import threading
    from vtelem.registry import Registry

    reg = Registry("things")
    real = reg.get_id
    gate = threading.Barrier(2)

    def slow(name):
        out = real(name)
        try:
            gate.wait(1)
        except threading.BrokenBarrierError:
            pass
        return out

    reg.get_id = slow
    got = []
    threads = [
        threading.Thread(target=lambda: got.append(reg.add("a", 1)[0]))
        for _ in range(2)
    ]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    assert sorted(got) == [False, True], got
    ''')

bug("c15-max-key", "C15",
    [("vtelem/classes/serdes.py", "        if isinstance(key, int) and key > result:\n            result = key\n    return result\n", "        if isinstance(key, int) and key > result:\n            result = key\n    return min(result, len(data) - 1)\n")],
    "a registry or map whose integer keys aren't contiguous",
    "the highest key is under-reported",
    '''
    from vtelem.classes.serdes import max_key

    assert max_key({0: 1, 1: 1}) == 1
    assert max_key({}) == -1
    assert max_key({0: 1, 7: 1}) == 7
    ''')

bug("c19-retry", "C19",
    [("vtelem/daemon/manager.py", "                for dep in curr_deps:\n                    if dep not in executed:\n                        to_execute.append(dep)\n", "                for dep in curr_deps:\n                    if dep not in executed and dep not in to_execute:\n                        to_execute.append(dep)\n                        break\n"),
     ("vtelem/daemon/manager.py", "                executed.append(curr)\n", "                if results[curr]:\n                    executed.append(curr)\n")],
    "an operation on all services in which one of two services listed twice fails",
    "a service that failed isn't noted, so that what depends on it is never reached or it is operated again",
    '''
    import sys
    from vtelem.daemon import DaemonBase
    from vtelem.daemon.manager import DaemonManager
    from vtelem.enums.daemon import DaemonOperation

    sys.setrecursionlimit(400)
    calls = []

    class Fake:
        def __init__(self, name, result):
            self.name, self.result = name, result

        def perform(self, *_, **__):
            calls.append(self.name)
            return self.result

    mgr = DaemonManager()
    mgr.add_daemon(Fake("a", False))
    mgr.add_daemon(Fake("b", True), ["a"])
    assert not mgr.perform_all(DaemonOperation.PAUSE)
    assert calls == ["a", "b"], calls
    ''')

bug("c20-enter-first", "C20",
    [("vtelem/classes/state_machine.py", "                if curr.leaving(new, self._data):\n                    candidate = self.states[new]\n                    assert candidate is not None\n                    if candidate.entering(self.current_state, self._data):\n                        self.current_state = new\n", "                if curr.leaving(new, self._data):\n                    candidate = self.states[new]\n                    assert candidate is not None\n                    previous, self.current_state = self.current_state, new\n                    if candidate.entering(previous, self._data):\n"),
     ("vtelem/classes/state_machine.py", "                    else:\n                        LOG.error(\"%s: couldn't enter '%s'\", self.name, new)\n", "                    else:\n                        self.current_state = previous\n                        LOG.error(\"%s: couldn't enter '%s'\", self.name, new)\n")],
    "a state whose 'entering' raises, or that looks at the machine's state while it is entered",
    "a machine is left in a state that wasn't entered",
    '''
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    class A(State):
        def __init__(self):
            super().__init__("a")

        def run(self, data):
            return "b"

    class B(State):
        def __init__(self):
            super().__init__("b")

        def entering(self, prev_state, data):
            raise RuntimeError("can't be entered")

        def run(self, data):
            return "b"

    machine = StateMachine("m", [A(), B()])
    try:
        machine.run()
    except RuntimeError:
        pass
    assert machine.current_state == "a", machine.current_state
    ''')

bug("c21-backwards", "C21",
    [("vtelem/classes/time_keeper.py", "            for slave in self.slaves:\n                slave.set_time(curr_time)\n", "            for slave in self.slaves:\n                if slave.get_time() < curr_time:\n                    slave.set_time(curr_time)\n")],
    "a follower whose time was set ahead of the keeper's",
    "the follower stays ahead of the keeper",
    '''
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.classes.time_keeper import TimeKeeper

    now = [10.0]
    keeper = TimeKeeper("time", 1.0, 1.0, lambda: now[0], lambda _: None)
    slave = TimeEntity()
    keeper.add_slave(slave)
    slave.set_time(100.0)
    now[0] = 11.0
    keeper.iteration()
    assert slave.get_time() == keeper.get_time(), slave.get_time()
    ''')

bug("c23-stream-id", "C23",
    [("vtelem/stream/writer.py", "            result = self.curr_id\n            self.streams[result] = stream\n", "            result = len(self.streams)\n            self.streams[result] = stream\n")],
    "a stream that's added after an earlier one was removed while a later one stays",
    "the new stream takes the identifier of one that is registered, which is lost",
    '''
    from io import BytesIO
    from vtelem.stream.writer import default_writer

    writer, _ = default_writer()
    ids = [writer.add_stream(BytesIO()) for _ in range(2)]
    writer.remove_stream(ids[0])
    ids.append(writer.add_stream(BytesIO()))
    assert len(writer.streams) == 2, writer.streams
    assert ids[2] != ids[1]
    ''')

bug("c23-remove-skips", "C23",
    [("vtelem/classes/udp_client_manager.py", "            if self.writer.remove_stream(sock_id):\n                self.closer(sock_id)\n", "            if sock_id in self.clients and self.writer.remove_stream(sock_id):\n                if len(self.clients) > 1 or self.writer.streams:\n                    self.closer(sock_id)\n")],
    "the last client of a writer without other streams being removed",
    "the socket of the last client is never closed",
    '''
    import socket
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    server = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    server.bind(("127.0.0.1", 0))
    manager = UdpClientManager(default_writer()[0])
    sid, _ = manager.add_client(Host(*server.getsockname()))
    sock = manager.clients[sid][0]
    manager.remove_client(sid)
    assert not manager.clients
    assert sock.fileno() == -1
    ''')

bug("c26-form-wins", "C26",
    [("vtelem/classes/http_request_mapper.py", "        data: dict = defaultdict(lambda: None)\n        data.update(_data)\n", "        data: dict = defaultdict(lambda: None)\n"),
     ("vtelem/classes/http_request_mapper.py", "            data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore\n", "            data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore\n        data.update(_data)\n")],
    "a POST request that gives one field in its query and its form",
    "the form's value replaces the query's",
    '''
    import http.client
    from vtelem.daemon.http import HttpDaemon
    from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
    from vtelem.mtu import Host

    seen = []

    def handle(_, data):
        seen.append(dict(data))
        return True, "{}"

    daemon = HttpDaemon(
        "http", Host("127.0.0.1", 0), handler_class=MapperAwareRequestHandler
    )
    daemon.add_handler("POST", "x", handle)
    with daemon.booted():
        conn = http.client.HTTPConnection(*daemon.server.server_address)
        head = {"Content-Type": "application/x-www-form-urlencoded"}
        conn.request("POST", "/x?a=1", "a=2&b=3", head)
        conn.getresponse().read()
    daemon.close()
    assert seen == [{"a": ["1"], "b": ["3"]}], seen
    ''')

bug("c26-splitlines", "C26",
    [("vtelem/classes/http_request_mapper.py", "        parts = [x.split(\"\\r\\n\") for x in chunks]\n", "        parts = [x.splitlines() for x in chunks]\n")],
    "a form whose part holds a line break other than CR LF",
    "the contents of a part of a form are taken apart at other line breaks",
    """
    from vtelem.classes.http_request_mapper import parse_multipart_data

    data = (
        '--b\\r\\nContent-Disposition: form-data; name="x"\\r\\n\\r\\n'
        "one\\ntwo\\r\\n--b--"
    )
    parts = parse_multipart_data("b", data)
    assert parts[0]["body"][0] == "one\\ntwo", parts
    """)

bug("c27-torn-read", "C27",
    [("vtelem/channel/group.py", "        with self.env.lock:\n            for name, channel in self.channels.items():\n                if channel[\"is_enum\"]:\n                    values[name] = self.env.get_enum_value(channel[\"id\"])\n                else:\n                    values[name] = self.env.get_value(channel[\"id\"])\n", "        for name, channel in self.channels.items():\n            with self.env.lock:\n                if channel[\"is_enum\"]:\n                    values[name] = self.env.get_enum_value(channel[\"id\"])\n                else:\n                    values[name] = self.env.get_value(channel[\"id\"])\n")],
    "a write of the group that lands between two reads of its channels",
    "a read of a group mixes values of two writes",
    '''
    import threading
    from vtelem.channel.group import ChannelGroup
    from vtelem.enums.primitive import Primitive
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(1024)
    group = ChannelGroup("g", env)
    for name in "ab":
        assert group.add_channel(name, Primitive.UINT8, 1.0)
    real, done = env.get_value, []

    def get_value(chan_id):
        out = real(chan_id)
        if not done:
            done.append(1)
            thread = threading.Thread(
                target=lambda: group.write({"a": 1, "b": 1})
            )
            thread.start()
            env.lock.lock.release()
            thread.join(0.5)
            env.lock.lock.acquire()
        return out

    def locked():
        done.append(1)
        thread = threading.Thread(target=lambda: group.write({"a": 1, "b": 1}))
        thread.start()
        thread.join(0.5)

    class Chans(dict):
        def items(self):
            for pos, item in enumerate(super().items()):
                if pos == 1:
                    locked()
                yield item

    group.channels = Chans(group.channels)
    values = group.read()
    assert values["a"] == values["b"], values
    ''')

bug("c28-limit-late", "C28",
    [("vtelem/client/file.py", "                    if not data:\n                        LOG.info(\"%s: reached end-of-file\", self.name)\n                        self.frames.put(None)\n                        break\n", "                    if not data:\n                        LOG.info(\"%s: reached end-of-file\", self.name)\n                        if self.frame_count:\n                            self.frames.put(None)\n                        break\n")],
    "a file that holds no frame at all",
    "the end of the file isn't reported",
    '''
    from pathlib import Path
    from queue import Queue
    from tempfile import NamedTemporaryFile
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.client.file import FileClient, FileDecodeTask
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(1024)
    with NamedTemporaryFile() as tmp:
        tmp.write(b"\\0\\0")
        tmp.flush()
        queue = Queue()
        client = FileClient(
            FileDecodeTask(Path(tmp.name)), queue, env.channel_registry,
            env.app_id, env,
        )
        assert client.start()
        client.thread.join()
        assert queue.get(timeout=5) is None
    ''')

bug("c29-overrun-sleep", "C29",
    [("vtelem/daemon/synchronous.py", "            if self.state == DaemonState.PAUSED:\n                self.function[\"sleep\"](rate)\n                continue\n", "            paused = self.state == DaemonState.PAUSED\n            if paused:\n                self.function[\"sleep\"](rate)\n                if self.state == DaemonState.PAUSED:\n                    continue\n")],
    "a task that is unpaused (or stopped) while it sleeps",
    "an iteration runs that wasn't due, after the request to stop",
    '''
    import time
    from vtelem.daemon import DaemonState
    from vtelem.daemon.synchronous import Daemon

    calls = []
    daemon = Daemon("d", lambda *_, **__: calls.append(1), 0.01)
    real = daemon.function["sleep"]

    def sleep(amount):
        if daemon.state == DaemonState.PAUSED:
            calls.clear()
            daemon.unpause()
            daemon.begin_stop()

    assert daemon.start()
    daemon.started.wait()
    daemon.function["sleep"] = sleep
    thread = daemon.thread
    assert daemon.pause()
    thread.join()
    assert not calls, calls
    ''')

bug("c30-increment", "C30",
    [("vtelem/daemon/__init__.py", "        with self.lock:\n            val = self.function[\"metrics_data\"][name] + value\n            self.function[\"metrics_data\"][name] = val\n            self.set_env_metric(name, val)\n\n    def decrement", "        val = self.function[\"metrics_data\"][name] + value\n        with self.lock:\n            self.function[\"metrics_data\"][name] = val\n            self.set_env_metric(name, val)\n\n    def decrement")],
    "two threads that count at once",
    "a count is lost",
    '''
    import threading
    from vtelem.daemon import DaemonBase

    daemon = DaemonBase("d")
    gate = threading.Barrier(2)

    class Data(dict):
        def __getitem__(self, key):
            out = super().__getitem__(key)
            try:
                gate.wait(1)
            except threading.BrokenBarrierError:
                pass
            return out

    daemon.function["metrics_data"] = Data(n=0)
    threads = [
        threading.Thread(target=daemon.increment_metric, args=("n",))
        for _ in range(2)
    ]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    assert dict(daemon.function["metrics_data"])["n"] == 2
    ''')

bug("c11-empty-fragment", "C11",
    [("vtelem/frame/message.py", "    return ceil(message_len / len_per_mtu), len_per_mtu\n", "    return message_len // len_per_mtu + 1, len_per_mtu\n")],
    "a message that fills its last frame exactly",
    "a message whose length is a multiple of what a frame holds isn't serialised",
    '''
    from vtelem.message.framer import MessageFramer

    for size in range(1, 120):
        frames, _ = MessageFramer(64, 0.5).serialize_message(bytes(size))
        assert frames
    ''')

bug("c03-second-frame", "C03",
    [("vtelem/channel/framer.py", "                curr_frame = self.new_event_frame()\n                assert curr_frame.add_event(\n                    chan_id, chan_type, event[1], event[2]\n                )\n", "                curr_frame = self.new_event_frame()\n                assert curr_frame.add_event(\n                    chan_id, chan_type, event[2], event[2]\n                )\n")],
    "more events at once than one frame holds",
    "the first event of every further frame loses its previous value",
    '''
    from queue import Queue
    from vtelem.channel.environment import ChannelEnvironment
    from vtelem.enums.primitive import Primitive

    env = ChannelEnvironment(64)
    chan = env.add_channel("a", Primitive.UINT8, 1.0, True)
    for val in range(1, 6):
        assert env.channel_registry.get_item(chan).set(val, 1.0)
    env.dispatch_events(2.0)
    got = []
    while not env.frame_queue.empty():
        frame = env.decode_frame(*env.frame_queue.get().raw)
        got += [
            (x["previous"]["value"], x["current"]["value"])
            for x in frame.body["events"]
        ]
    assert got == [(x, x + 1) for x in range(5)], got
    ''')

bug("c10-can-read", "C10",
    [("vtelem/classes/byte_buffer.py", "        return self.remaining >= get_size(inst)\n", "        return len(self.data) - self.get_pos() >= get_size(inst)\n")],
    "a frame without a footer that is decoded from a longer array of bytes",
    "decoding looks for a footer after the frame's end and raises",
    '''
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.message.framer import MessageFramer
    from vtelem.parsing.encapsulation import decode_frame

    frames, _ = MessageFramer(64, 0.5, False).serialize_message(b"hello", 1.0)
    data, size = frames[0].raw
    for extra in range(8):
        got = decode_frame(ChannelRegistry(), bytes(data) + bytes(extra), size)
        assert got is not None
    ''')

bug("c17-enum-add", "C17",
    [("vtelem/channel/__init__.py", "        operation = self.add if add else self.set\n        return operation(value, time)\n", "        operation = self.add if add else self.set\n        return operation(value, time) or self.data == value\n")],
    "a command with a value of another type that compares equal to the current one",
    "a command that was refused is reported as a success",
    '''
    from vtelem.channel import Channel
    from vtelem.enums.primitive import Primitive

    chan = Channel("a", Primitive.UINT8, 1.0)
    assert chan.command(3)
    assert not chan.command(3.0)
    ''')

bug("c18-second-stop", "C18",
    [("vtelem/daemon/__init__.py", "            if self.state != DaemonState.IDLE:\n                return False\n", "            if self.state not in (DaemonState.IDLE, DaemonState.STOPPING):\n                return False\n")],
    "a start while the daemon is stopping",
    "a daemon that is still stopping is started again, so that two threads run it",
    '''
    import threading
    from vtelem.daemon import DaemonBase

    class Slow(DaemonBase):
        def run(self, *_, **__):
            runs.append(1)
            gate.wait(5)

    runs, gate = [], threading.Event()
    daemon = Slow("d")
    assert daemon.start()
    daemon.started.wait()
    first = daemon.begin_stop()
    again = daemon.start()
    gate.set()
    first.join()
    if daemon.thread is not None:
        daemon.thread.join()
    assert not again
    ''')

bug("c22-none-first", "C23",
    [("vtelem/stream/writer.py", "                queue.put(None)\n            self.decrement_metric(\"queue_count\")\n", "                if queue.empty():\n                    queue.put(None)\n            self.decrement_metric(\"queue_count\")\n")],
    "a queue that's removed while it still holds frames",
    "the end isn't reported to a reader that is behind",
    '''
    from vtelem.stream.writer import default_writer

    writer, _ = default_writer()
    qid, queue = writer.registered_queue()
    queue.put("frame")
    assert writer.remove_queue(qid)
    assert queue.get(timeout=1) == "frame"
    assert queue.get(timeout=1) is None
    ''')

bug("c32-round", "C32",
    [("vtelem/frame/__init__.py", "int(math.floor(frac * precision))", "int(round(frac * precision))")],
    "a time in the second half of a millisecond",
    "a frame's timestamp lies after the time it was built for",
    """
    from vtelem.frame import time_to_int

    assert time_to_int(1.0) == 1000
    assert time_to_int(1.9996) == 1999
    """)

bug("c06-float-bounds", "C06",
    [("vtelem/enums/primitive.py", "    return prim.min <= val <= prim.max\n", "    return float(prim.min) <= val <= float(prim.max)\n")],
    "2 to the power of 64 (or 63) stored in a primitive of 64 bits",
    "a value one beyond the range is accepted, and can't be encoded",
    """
    from vtelem.classes.type_primitive import TypePrimitive
    from vtelem.enums.primitive import Primitive

    prim = TypePrimitive(Primitive.UINT64)
    assert prim.set(2**64 - 1)
    assert not prim.set(2**64)
    """)

bug("c09-zero-id", "C09",
    [("vtelem/parsing/encapsulation.py", "    if expected_id is not None:\n        if app_id != expected_id.get():\n", "    if expected_id is not None and expected_id.get():\n        if app_id != expected_id.get():\n")],
    "a receiver that expects the application identifier zero",
    "a receiver that expects zero accepts every application's frames",
    """
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.classes.type_primitive import new_default
    from vtelem.message.framer import MessageFramer
    from vtelem.parsing.encapsulation import decode_frame

    frames, _ = MessageFramer(64, 0.5).serialize_message(b"hello", 1.0)
    own = new_default("id")
    assert decode_frame(ChannelRegistry(), *frames[0].raw, own) is None
    """)

bug("c17-id-zero", "C17",
    [("vtelem/factories/telemetry_environment.py", "            if \"channel_id\" in cmd and cmd[\"channel_id\"] != chan_id:\n", "            if cmd.get(\"channel_id\") and cmd[\"channel_id\"] != chan_id:\n")],
    "a command that gives a channel's name and the identifier zero of another",
    "a command that contradicts itself is carried out",
    """
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.telemetry_environment import create_channel_commander
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(1024)
    env.add_channel("a", Primitive.UINT8, 1.0)
    chan = env.add_channel("b", Primitive.UINT8, 1.0)
    daemon = CommandQueueDaemon("cmd")
    create_channel_commander(env, daemon)
    data = {
        "operation": "set", "channel_name": "b", "channel_id": 0, "value": 5
    }
    got = []
    daemon.handle(
        ({"command": "channel", "data": data}, lambda *args: got.append(args))
    )
    assert env.get_value(chan) == 0 and not got[0][0], got
    """)

bug("c16-count-late", "C16",
    [("vtelem/daemon/command_queue.py", "            self.increment_metric(\"command_count\")\n            elem = data[0]\n", "            elem = data[0]\n            if elem:\n                self.increment_metric(\"command_count\")\n")],
    "an empty command",
    "an empty command is rejected but isn't counted as a command",
    """
    from vtelem.daemon.command_queue import CommandQueueDaemon

    daemon = CommandQueueDaemon("cmd")
    for elem in ({}, {"command": "x"}, None):
        daemon.handle((elem, None))
    data = daemon.function["metrics_data"]
    assert data["command_count"] == data["rejected_count"] == 3, dict(data)
    """)

bug("c24-describe", "C24",
    [("vtelem/registry/__init__.py", "        with self.lock:\n            result = json.dumps(\n                self.data, indent=indent, cls=cls, sort_keys=True\n            )\n        return result\n", "        self.lock.acquire()\n        result = json.dumps(self.data, indent=indent, cls=cls, sort_keys=True)\n        self.lock.release()\n        return result\n")],
    "describing a registry that holds something without a description",
    "the registry stays locked after describing it raised",
    """
    import threading
    from vtelem.registry import Registry

    reg = Registry("things")
    assert reg.add("a", object())[0]
    try:
        reg.describe()
    except TypeError:
        pass
    got = []
    thread = threading.Thread(
        target=lambda: got.append(reg.add("b", 1)), daemon=True
    )
    thread.start()
    thread.join(2)
    assert got, "locked"
    """)

bug("c31-close", "C31",
    [("vtelem/telemetry/server.py", "        if self.http_enabled:\n            assert self.perform(DaemonOperation.STOP)\n        self.close()\n", "        if self.http_enabled:\n            assert self.perform(DaemonOperation.STOP)\n            self.close()\n")],
    "a server whose http interface is disabled",
    "the http server's socket stays open after the server was stopped",
    """
    import socket
    from vtelem.mtu import Host
    from vtelem.telemetry.server import TelemetryServer
    from vtelem.types.telemetry_server import Service, TelemetryServices

    off = [Service(x, Host("127.0.0.1", 0), False) for x in "abcd"]
    server = TelemetryServer(0.01, 0.1, 0.1, None, services=TelemetryServices(*off))
    with server.booted():
        pass
    assert server.server.socket.fileno() == -1
    """)

bug("c31-any-id", "C31",
    [("vtelem/factories/telemetry_server.py", "        if our_id.get() != int(provided_id):\n", "        if int(provided_id) and our_id.get() != int(provided_id):\n")],
    "a shutdown request for the identifier zero",
    "a request for the identifier zero stops every server",
    """
    import http.client
    from unittest.mock import MagicMock
    from vtelem.classes.type_primitive import new_default
    from vtelem.factories.telemetry_server import register_http_handlers

    handlers = {}
    server = MagicMock()
    server.add_handler = lambda kind, path, handle, *_: handlers.update(
        {path: handle}
    )
    telem = MagicMock()
    telem.app_id = new_default("id")
    assert telem.app_id.set(5)
    register_http_handlers(server, telem, MagicMock())
    assert not handlers["shutdown"](None, {"app_id": ["0"]})[0]
    assert not server.stop_all.called
    assert handlers["shutdown"](None, {"app_id": ["5"]})[0]
    """)

bug("c25-explain-head", "C25",
    [("vtelem/classes/http_request_mapper.py", "        status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST\n", "        status = HTTPStatus.OK if content else HTTPStatus.NO_CONTENT\n        status = status if success else HTTPStatus.BAD_REQUEST\n"),
     ("vtelem/classes/http_request_mapper.py", "        if not headers_only:\n", "        if not headers_only or status == HTTPStatus.NO_CONTENT:\n")],
    "a handler without content",
    "an empty result is announced as no content although it has a content length",
    """
    import http.client
    from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
    from vtelem.daemon.http import HttpDaemon
    from vtelem.mtu import Host

    daemon = HttpDaemon(
        "http", Host("127.0.0.1", 0), handler_class=MapperAwareRequestHandler
    )
    daemon.add_handler("GET", "x", lambda *_: (True, ""))
    with daemon.booted():
        conn = http.client.HTTPConnection(*daemon.server.server_address)
        conn.request("GET", "/x")
        resp = conn.getresponse()
        assert resp.status == 200, resp.status
    daemon.close()
    """)

