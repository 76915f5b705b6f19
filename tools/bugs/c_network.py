bug("c33-probe-option", "C33",
    [("vtelem/mtu.py", "    except OSError:\n        pass\n\n    # restore", "    except OSError as exc:\n        LOG.info(\"mtu probe failed: %s\", exc)\n        return sock.getsockopt(socket.IPPROTO_IP, SocketConstants.IP_MTU)\n\n    # restore")],
    "a probe that is larger than the MTU",
    "the socket keeps refusing to fragment what is sent later",
    '''
    import socket
    from vtelem.mtu import Host, SocketConstants, create_udp_socket, discover_mtu

    there = create_udp_socket(Host("127.0.0.1", 0), False)
    sock = create_udp_socket(Host(*there.getsockname()))
    opt = (socket.IPPROTO_IP, SocketConstants.IP_MTU_DISCOVER)
    sock.setsockopt(*opt, 0)
    for size in (1000, 66000):
        assert discover_mtu(sock, size) > 0
        assert sock.getsockopt(*opt) == 0, size
    sock.close()
    there.close()
    ''')

bug("c33-silence", "C33",
    [("vtelem/client/socket.py", "            except timeout:\n                pass\n", "            except timeout:\n                self.processor.buffer.reset()\n")],
    "a connection that pauses in the middle of a frame for longer than the time limit of a read",
    "the start of the frame is dropped, and what follows is taken out of step",
    '''
    import os, sys, traceback
    sys.excepthook = lambda *x: (traceback.print_exception(*x), os._exit(1))
    import socket
    import time
    from vtelem.client.tcp import TcpClient
    from vtelem.mtu import Host
    from vtelem.message.framer import MessageFramer
    from vtelem.stream import queue_get
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(1400)
    server = socket.create_server(("127.0.0.1", 0))
    from queue import Queue
    out = Queue()
    client = TcpClient(
        Host("127.0.0.1", server.getsockname()[1]), out,
        env.channel_registry, None, env,
    )
    conn, _ = server.accept()
    assert client.start()
    frames, _ = MessageFramer(200, 0.5).serialize_message(b"hello", 1.0)
    data, size = frames[0].with_size_header()
    data = bytes(data[:size])
    for cut in (len(data), len(data) // 2):
        conn.sendall(data[:cut])
        time.sleep(0.4)
        conn.sendall(data[cut:])
        assert queue_get(out, 2) is not None, cut
    assert client.stop()
    conn.close()
    server.close()
    ''')

bug("c34-eager", "C34",
    [("vtelem/daemon/websocket.py", "            await message_consumer(websocket, message, path)\n", "            asyncio.ensure_future(message_consumer(websocket, message, path))\n")],
    "a client that sends a second message while its first is still being handled",
    "messages of a client are handled at the same time, and finish out of order",
    '''
    import asyncio
    import websockets
    from vtelem.daemon.websocket import WebsocketDaemon
    from vtelem.mtu import Host, get_free_tcp_port

    port = get_free_tcp_port()

    async def consumer(sock, message, _):
        await asyncio.sleep(float(message))
        await sock.send(message)

    daemon = WebsocketDaemon("ws", consumer, Host("127.0.0.1", port))
    with daemon.booted():
        async def talk():
            for _ in range(50):
                try:
                    sock = await websockets.connect(f"ws://127.0.0.1:{port}")
                    break
                except OSError:
                    await asyncio.sleep(0.1)
            for text in ("0.5", "0.1", "0"):
                await sock.send(text)
            got = [await sock.recv() for _ in range(3)]
            await sock.close()
            assert got == ["0.5", "0.1", "0"], got

        asyncio.run(talk())
    ''')

bug("c34-one-broken", "C34",
    [("vtelem/stream/writer.py", "                        to_remove.append((stream_id, stream))\n", "                        to_remove.append((stream_id, stream))\n                        break\n")],
    "a client whose connection breaks while others are connected",
    "clients that connected after it miss the frame",
    '''
    from io import BytesIO
    from vtelem.frame.framer import Framer
    from vtelem.message.framer import MessageFramer
    from vtelem.stream.writer import default_writer

    class Broken(BytesIO):
        def write(self, _):
            raise BrokenPipeError("gone")

    writer, queue = default_writer("w")
    good = [BytesIO(), BytesIO()]
    writer.add_stream(good[0])
    writer.add_stream(Broken())
    writer.add_stream(good[1])
    frame = MessageFramer(64, 0.5).serialize_message(b"hello", 1.0)[0][0]
    writer.handle(frame)
    assert good[0].getvalue() == good[1].getvalue() != b""
    ''')

bug("c35-only-all", "C35",
    [("vtelem/factories/daemon_manager.py", "            if \"all\" in daemons:\n", "            if daemons == [\"all\"]:\n")],
    "a command for all services that also names one of them",
    "the command fails, and reaches at most one service",
    '''
    import os, sys, traceback
    sys.excepthook = lambda *x: (traceback.print_exception(*x), os._exit(1))
    import json
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.factories.daemon_manager import create_daemon_manager_commander
    from queue import Queue

    manager = DaemonManager()
    for name in "ab":
        manager.add_daemon(QueueDaemon(name, Queue(), print))
    command = CommandQueueDaemon("command")
    create_daemon_manager_commander(manager, command)
    with command.booted():
        for names in (["all"], ["a", "all"]):
            for oper in ("start", "stop"):
                ok, text = command.execute({
                    "command": "daemon",
                    "data": {"operation": oper, "daemons": names},
                })
                assert ok, (names, oper, text)
                assert sorted(json.loads(text)["results"]) == ["a", "b"]
    ''')

bug("c35-states-early", "C35",
    [("vtelem/factories/daemon_manager.py", "            results = {}\n            bool_results: List[bool] = []\n", "            state_data = manager.states()\n            results = {}\n            bool_results: List[bool] = []\n"),
     ("vtelem/factories/daemon_manager.py", "                results[daemon_name] = result\n            state_data = manager.states()\n", "                results[daemon_name] = result\n")],
    "a command that changes the state of a service",
    "the answer tells the states before the command",
    '''
    import os, sys, traceback
    sys.excepthook = lambda *x: (traceback.print_exception(*x), os._exit(1))
    import json
    import time
    from queue import Queue
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.factories.daemon_manager import create_daemon_manager_commander

    manager = DaemonManager()
    manager.add_daemon(QueueDaemon("a", Queue(), print))
    command = CommandQueueDaemon("command")
    create_daemon_manager_commander(manager, command)

    def run(oper):
        ok, text = command.execute({
            "command": "daemon",
            "data": {"operation": oper, "daemons": ["a"]},
        })
        assert ok, text
        return json.loads(text)["a"]

    with command.booted():
        assert run("start") in ("starting", "running")
        time.sleep(0.2)
        assert run("pause") == "paused"
        assert run("unpause") == "running"
        assert run("stop") == "idle"
    ''')

bug("c35-zero-client", "C35",
    [("vtelem/factories/udp_client_manager.py", "        if \"id\" in data:\n            if data[\"id\"] not in", "        if data.get(\"id\"):\n            if data[\"id\"] not in")],
    "a command that lists the client with identifier 0 while there are others",
    "all clients are listed instead of the one asked for",
    '''
    import json
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.factories.udp_client_manager import list_client
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    manager = UdpClientManager(default_writer("w")[0])
    for port in (40001, 40002):
        manager.add_client(Host("127.0.0.1", port))
    for one in (0, 1):
        ok, text = list_client(manager, {"id": one})
        assert ok and list(json.loads(text)) == [str(one)], text
    assert len(json.loads(list_client(manager, {})[1])) == 2
    assert not list_client(manager, {"id": 7})[0]
    manager.remove_all()
    ''')
