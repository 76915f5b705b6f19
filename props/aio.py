"""An event loop and websocket connections under control of the scheduler.

The loop is asyncio's own (tasks, futures, timers, cancellation); only its
selector is a stand-in, that waits for virtual time or for being woken.
"""

import asyncio
import threading
import time
from asyncio import base_events
from collections import deque

from websockets.exceptions import ConnectionClosedError, ConnectionClosedOK

QUIET = (asyncio.CancelledError, GeneratorExit, KeyboardInterrupt, SystemExit)


class Loop(base_events.BaseEventLoop):
    """An event loop that waits in virtual time."""

    def __init__(self, cx):
        super().__init__()
        self.cx = cx
        self.wake = threading.Event()
        self._selector = self
        self.broken = None
        self.waits = 0
        self.runs = 0
        self.task = None
        self.set_task_factory(self.make_task)

    def make_task(self, loop, coro, **kwargs):
        """A task, from which the engine's own exceptions get out."""

        async def guarded():
            try:
                return await coro
            except QUIET:
                raise
            except Exception:  # pylint: disable=broad-except
                raise
            except BaseException as exc:
                self.broken = exc
                raise

        task = asyncio.Task(guarded(), loop=loop, **kwargs)
        task._log_destroy_pending = False  # pylint: disable=protected-access
        return task

    def time(self):
        """The time."""
        return self.cx.world.now

    def select(self, timeout):
        """Wait until there's something to do."""
        if self.broken is not None:
            exc, self.broken = self.broken, None
            raise exc
        self.waits += 1
        if self.waits > 20000:
            self.cx.fail("the event loop doesn't get anywhere")
        # somebody else's turn
        if timeout is None:
            self.wake.wait()
        else:
            self.wake.wait(max(timeout, 1e-6))
        self.wake.clear()
        return []

    def run_forever(self):
        """Run until it's stopped."""
        self.runs += 1
        self.task = self.cx.world.cur
        try:
            super().run_forever()
        finally:
            if self.broken is not None:
                exc, self.broken = self.broken, None
                raise exc

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self.wake.set()

    def call_exception_handler(self, context):
        """Nothing is logged."""

    def __del__(self, *_, **__):
        pass


class Side:
    """An end of a websocket connection."""

    def __init__(self, local, remote, suspend=False):
        self.local_address = local
        self.remote_address = remote
        self.suspend = suspend
        self.peer = None
        self.loop = None
        self.inbox = deque()
        self.waiter = None
        self.closed = False
        self.error = False
        self.sent = []
        self.close_calls = 0

    def notify(self):
        """Wake who waits."""
        waiter = self.waiter
        if waiter is not None:
            self.waiter = None

            def wake():
                if not waiter.done():
                    waiter.set_result(None)

            self.loop.call_soon_threadsafe(wake)

    def over(self):
        """What's raised when it's closed."""
        if self.error:
            return ConnectionClosedError(None, None)
        return ConnectionClosedOK(None, None)

    def put(self, data):
        """Something arrives."""
        if not self.closed:
            self.inbox.append(data)
            self.notify()

    def drop(self, error=False):
        """The connection is over, on both sides."""
        for side in (self, self.peer):
            if side is not None and not side.closed:
                side.closed = True
                side.error = error
                side.notify()

    async def send(self, data):
        """Send a message."""
        if self.suspend:
            await asyncio.sleep(0)
        if self.closed:
            raise self.over()
        self.sent.append(data)
        if self.peer is not None:
            self.peer.put(data)

    async def recv(self):
        """The next message."""
        while not self.inbox:
            if self.closed:
                raise self.over()
            self.loop = asyncio.get_running_loop()
            self.waiter = self.loop.create_future()
            await self.waiter
        return self.inbox.popleft()

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return await self.recv()
        except ConnectionClosedOK:
            raise StopAsyncIteration from None

    async def close(self, *_, **__):
        """Close it."""
        self.close_calls += 1
        if self.suspend:
            await asyncio.sleep(0)
        self.drop()


def link(one, two, suspend=False):
    """Two ends of a connection."""
    left, right = Side(one, two, suspend), Side(two, one, suspend)
    left.peer, right.peer = right, left
    return left, right


class Served:
    """What serving gives."""

    def __init__(self, net, handler, host, port):
        self.net = net
        self.handler = handler
        self.address = (host, port)
        self.loop = asyncio.get_running_loop()
        self.sockets = [self]
        net.served.append(self)

    def getsockname(self):
        """Where."""
        return self.address

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        return self

    def accept(self, side, path="/"):
        """A client connects."""

        async def serve():
            try:
                await self.handler(side, path)
            finally:
                # the library closes it when its handler is done
                side.drop()

        def start():
            self.net.tasks.append(self.loop.create_task(serve()))

        self.loop.call_soon_threadsafe(start)


class Connecting:
    """What connecting to a uri gives."""

    def __init__(self, net, uri):
        self.net = net
        self.uri = uri
        self.side = None

    async def __aenter__(self):
        self.net.uris.append(self.uri)
        if self.net.delay:
            await asyncio.sleep(self.net.delay)
        self.side = self.net.reach(self.uri)
        return self.side

    async def __aexit__(self, *_):
        await self.side.close()


class Net:
    """Websockets."""

    def __init__(self, cx, loop_module, websockets):
        self.cx = cx
        self.loops = []
        self.served = []
        self.tasks = []
        self.uris = []
        self.delay = 0.0
        self.reach = None

        def make():
            self.loops.append(Loop(cx))
            return self.loops[-1]

        cx.patch(loop_module.asyncio, "new_event_loop", make)
        tasks_of = asyncio.all_tasks

        def all_tasks(loop=None):
            # who asks from elsewhere may ask until something has changed
            if loop is not None and self.cx.world.cur is not loop.task:
                time.sleep(0.01)
            return tasks_of(loop)

        cx.patch(loop_module.asyncio, "all_tasks", all_tasks)
        cx.patch(
            websockets,
            "serve",
            lambda handler, host, port, **_: Served(self, handler, host, port),
        )
        cx.patch(
            websockets, "connect", lambda uri, **_: Connecting(self, uri)
        )
