"""
vsym.sched - threads under control: one task runs at a time, what runs next is
chosen by the harness (a symbolic choice while exploring, the solver's choice
while replaying) and time is virtual.

Replaces threading.Lock, RLock and Thread, on which the standard library's
Semaphore, Condition, Event and Queue are built.
"""

import _thread
import queue
import threading
import time
import weakref
from typing import Any, Callable, List, Optional

REAL_ALLOC = _thread.allocate_lock
REAL_START = _thread.start_new_thread
REAL_TIME = time.time
REAL_SLEEP = time.sleep


class Deadlock(BaseException):
    """Every task waits for something that can't happen."""


class TaskKill(BaseException):
    """Unwinds the remaining tasks at the end of a path."""


class Task:
    """One thread of control."""

    def __init__(self, name: str, func: Optional[Callable]) -> None:
        self.name = name
        self.func = func
        self.baton = REAL_ALLOC()
        self.baton.acquire()
        self.done = False
        self.started = func is None
        self.cond: Optional[Callable[[], bool]] = None
        self.deadline: Any = None
        self.exc: Optional[BaseException] = None
        self.thread: Any = None
        self.value: Any = None


class World:
    """The tasks of one path."""

    def __init__(
        self,
        pick: Callable[[str, int], int] = None,
        preempt: Callable[[int, int, int], int] = None,
    ) -> None:
        self.pick = pick
        self.preempt = preempt
        self.preempted = 0
        self.spots = 0
        self.now = 1000.0
        self.main = Task("main", None)
        self.cur = self.main
        self.tasks: List[Task] = [self.main]
        self.budget = 0
        self.free_choice = False
        self.error: Optional[BaseException] = None
        self.dead = False
        self.switches = 0
        self.points = 0
        self.limit = 200000
        self.clock: Optional[Callable[[], Any]] = None
        self.on_sleep: Optional[Callable[[Any], None]] = None
        self.slept: list = []
        self.choices = 0

    # -- choosing

    def _choose(self, what: str, num: int) -> int:
        if num <= 1 or self.pick is None:
            return 0
        self.choices += 1
        return self.pick(f"sched.{what}{self.choices}", num)

    @staticmethod
    def _ready(task: Task, now) -> bool:
        if task.done:
            return False
        if task.cond is None:
            return True
        if task.cond():
            return True
        return task.deadline is not None and now >= task.deadline

    def runnable(self, but: Task = None) -> List[Task]:
        """Tasks that can go on, in round-robin order from the current one."""
        idx = self.tasks.index(self.cur)
        order = self.tasks[idx + 1 :] + self.tasks[: idx + 1]
        return [
            x for x in order if x is not but and self._ready(x, self.now)
        ]

    def next_task(self) -> Optional[Task]:
        """Who runs next when the current task can't."""
        cands = self.runnable()
        if not cands:
            times = [
                x.deadline
                for x in self.tasks
                if not x.done and x.deadline is not None
            ]
            if not times:
                return None
            self.now = max(self.now, min(times))
            cands = self.runnable()
        if self.free_choice and len(cands) > 1:
            return cands[self._choose("next", len(cands))]
        return cands[0]

    def switch(self, task: Task) -> None:
        """Hand over to another task, return when it's our turn again."""
        me = self.cur
        if task is me:
            return
        self.switches += 1
        self.cur = task
        if not task.started:
            task.started = True
            REAL_START(self._body, (task,))
        else:
            task.baton.release()
        if me.done:
            return
        me.baton.acquire()
        self._woken(me)

    def _woken(self, me: Task) -> None:
        if self.dead:
            raise TaskKill()
        if me is self.main and self.error is not None:
            err, self.error = self.error, None
            raise err

    def fail(self, err: BaseException) -> None:
        """Raise an error in the main task."""
        if self.cur is self.main:
            raise err
        self.error = err
        self.switch(self.main)
        raise TaskKill()

    def _body(self, task: Task) -> None:
        try:
            if not self.dead:
                task.value = task.func()
        except TaskKill:
            pass
        except Exception as exc:  # pylint: disable=broad-except
            task.exc = exc
        except SystemExit:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            task.done = True
            if not self.dead:
                self.error = exc
                self.cur = self.main
                self.main.baton.release()
                return
        task.done = True
        if self.dead:
            self.killer.release()
            return
        if self.error is not None:
            self.cur = self.main
            self.main.baton.release()
            return
        try:
            nxt = self.next_task()
            if nxt is None:
                self.error = Deadlock(self.describe())
                nxt = self.main
        except BaseException as exc:  # pylint: disable=broad-except
            self.error = exc
            nxt = self.main
        self.switches += 1
        self.cur = nxt
        if not nxt.started:
            nxt.started = True
            REAL_START(self._body, (nxt,))
        else:
            nxt.baton.release()

    def describe(self) -> str:
        """Who waits."""
        return "all tasks wait: " + ", ".join(
            x.name for x in self.tasks if not x.done
        )

    def block(self, cond, deadline=None) -> bool:
        """Wait until a condition holds, or a time is reached."""
        while not cond():
            if self.dead:
                raise TaskKill()
            if deadline is not None and self.now >= deadline:
                return False
            me = self.cur
            me.cond, me.deadline = cond, deadline
            try:
                nxt = self.next_task()
                if nxt is None:
                    self.fail(Deadlock(self.describe()))
                self.switch(nxt)
            finally:
                me.cond = me.deadline = None
        return True

    def yield_(self, _where) -> None:
        """A point where another task may be scheduled."""
        if self.dead:
            return
        self.points += 1
        if self.points > self.limit:
            self.fail(Livelock(f"{self.points} scheduling points"))
        if self.budget <= 0 or self.preempt is None or len(self.tasks) < 2:
            return
        others = self.runnable(self.cur)
        if not others:
            return
        self.spots += 1
        idx = self.preempt(self.preempted, self.spots, len(others))
        if idx:
            self.budget -= 1
            self.preempted += 1
            self.switch(others[idx - 1])

    def spawn(self, func: Callable, name: str) -> Task:
        """Add a task."""
        task = Task(name, func)
        self.tasks.append(task)
        return task

    def join(self, tasks: List[Task]) -> None:
        """Wait for tasks."""
        self.block(lambda: all(x.done for x in tasks))

    def idle(self, until=None) -> None:
        """Let the other tasks run until none of them can (main task)."""
        deadline = until
        # a deadline in the past of every other: run others first
        while True:
            others = self.runnable(self.cur)
            if not others:
                if deadline is None:
                    return
                times = [
                    x.deadline
                    for x in self.tasks
                    if not x.done and x.deadline is not None
                ]
                if not times or min(times) > deadline:
                    self.now = max(self.now, deadline)
                    return
                self.now = max(self.now, min(times))
                others = self.runnable(self.cur)
            me = self.cur
            me.cond, me.deadline = (
                lambda: not [
                    x
                    for x in self.tasks
                    if x is not me and self._ready(x, self.now)
                ]
            ), None
            try:
                idx = (
                    self._choose("next", len(others))
                    if self.free_choice
                    else 0
                )
                self.switch(others[idx])
            finally:
                me.cond = me.deadline = None

    def sleep(self, amount) -> None:
        """time.sleep"""
        self.slept.append(amount)
        if self.on_sleep is not None:
            self.on_sleep(amount)
            return
        try:
            amount = float(amount)
        except (TypeError, ValueError):
            raise
        if amount < 0:
            raise ValueError("sleep length must be non-negative")
        end = self.now + amount
        self.block(lambda: self.now >= end, end)

    def shutdown(self) -> None:
        """End every remaining task."""
        self.dead = True
        self.killer = REAL_ALLOC()
        self.killer.acquire()
        for task in self.tasks:
            if task is self.main or task.done or not task.started:
                task.done = True
                continue
            self.cur = task
            task.baton.release()
            if not self.killer.acquire(timeout=10):
                break
        self.cur = self.main

    killer: Any = None


class Livelock(BaseException):
    """Tasks keep going without end."""


W = World()
LOCKS: "weakref.WeakSet" = weakref.WeakSet()


def new_world(pick=None, preempt=None) -> World:
    """Start over."""
    global W
    W = World(pick, preempt)
    for lock in list(LOCKS):
        lock.reset()
    return W


class FLock:
    """threading.Lock"""

    __slots__ = ("held", "__weakref__")

    def __init__(self) -> None:
        self.held: Optional[Task] = None
        LOCKS.add(self)

    def reset(self) -> None:
        self.held = None

    def acquire(self, blocking=True, timeout=-1) -> bool:
        W.yield_("acquire")
        if self.held is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                if not W.block(lambda: self.held is None, W.now + timeout):
                    return False
            else:
                W.block(lambda: self.held is None)
        self.held = W.cur
        return True

    def release(self) -> None:
        if self.held is None:
            raise RuntimeError("release unlocked lock")
        self.held = None
        W.yield_("release")

    def locked(self) -> bool:
        return self.held is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        if W.dead and self.held is None:
            return
        self.release()

    def _at_fork_reinit(self) -> None:
        self.held = None

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, _):
        raise TypeError("cannot pickle '_thread.lock' object")


class FRLock:
    """threading.RLock"""

    __slots__ = ("owner", "count", "__weakref__")

    def __init__(self) -> None:
        self.owner: Optional[Task] = None
        self.count = 0
        LOCKS.add(self)

    def reset(self) -> None:
        self.owner = None
        self.count = 0

    @property
    def held(self):
        return self.owner

    def acquire(self, blocking=True, timeout=-1) -> bool:
        W.yield_("acquire")
        me = W.cur
        if self.owner is not None and self.owner is not me:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                if not W.block(lambda: self.owner is None, W.now + timeout):
                    return False
            else:
                W.block(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self) -> None:
        if self.owner is not W.cur:
            if W.dead:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
        W.yield_("release")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def _is_owned(self) -> bool:
        return self.owner is W.cur

    def _release_save(self):
        state = (self.count, self.owner)
        self.count, self.owner = 0, None
        return state

    def _acquire_restore(self, state) -> None:
        W.block(lambda: self.owner is None)
        self.count, self.owner = state

    def _at_fork_reinit(self) -> None:
        self.reset()

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, _):
        raise TypeError("cannot pickle '_thread.RLock' object")


class FThread:
    """threading.Thread"""

    _count = 0

    def __init__(
        self,
        group=None,
        target=None,
        name=None,
        args=(),
        kwargs=None,
        *,
        daemon=None,
    ) -> None:
        FThread._count += 1
        self._target, self._args = target, args
        self._kwargs = {} if kwargs is None else kwargs
        self.name = f"Thread-{FThread._count}" if name is None else str(name)
        self.daemon = bool(daemon)
        self._task: Optional[Task] = None

    def run(self) -> None:
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self) -> None:
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        self._task = W.spawn(self.run, self.name)
        self._task.thread = self
        W.yield_("thread start")

    def join(self, timeout=None) -> None:
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is W.cur:
            raise RuntimeError("cannot join current thread")
        task = self._task
        W.block(
            lambda: task.done,
            None if timeout is None else W.now + max(timeout, 0),
        )

    def is_alive(self) -> bool:
        return self._task is not None and not self._task.done

    @property
    def ident(self):
        return None if self._task is None else id(self._task)

    native_id = ident

    def setName(self, name) -> None:
        self.name = name

    def getName(self) -> str:
        return self.name


class MainThread(FThread):
    """The main thread's object."""

    def __init__(self) -> None:
        super().__init__(name="MainThread")

    def is_alive(self) -> bool:
        return True

    @property
    def ident(self):
        return 1


MAIN_THREAD = MainThread()


def current_thread():
    """threading.current_thread"""
    return W.cur.thread if W.cur.thread is not None else MAIN_THREAD


def virtual_time():
    """time.time"""
    return W.clock() if W.clock is not None else W.now


def virtual_monotonic():
    """time.monotonic for the standard library's timeouts."""
    return W.now


def virtual_sleep(amount) -> None:
    """time.sleep"""
    W.sleep(amount)


PATCHED = False


def patch() -> None:
    """Put the controlled versions in place (before vtelem is imported)."""
    global PATCHED
    if PATCHED:
        return
    PATCHED = True
    import asyncio  # noqa: F401  (with the real primitives)
    import concurrent.futures  # noqa: F401
    import logging  # noqa: F401
    import socketserver  # noqa: F401

    threading._after_fork.__code__ = (lambda: None).__code__
    threading.Lock = FLock
    threading.RLock = FRLock
    threading._allocate_lock = FLock
    threading.Thread = FThread
    threading.current_thread = current_thread
    threading.main_thread = lambda: MAIN_THREAD
    threading.get_ident = lambda: (
        1 if W.cur.thread is None else id(W.cur)
    )
    threading._time = virtual_monotonic
    queue.time = virtual_monotonic
    queue.threading = threading
    time.time = virtual_time
    time.sleep = virtual_sleep
