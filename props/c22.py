"""C22: counters of metered queues."""

from queue import Empty, Full

from vtelem.classes.metered_queue import MeteredQueue, create
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

YIELD = True

BOUNDS = {
    "quick": "queues of at most 2 elements: any 5 operations (put and get, "
    "blocking, with a timeout and not), with registrations in between; 2 "
    "threads of 2 operations with 2 preemptions, 3 of 1 with 1",
    "thorough": "7 operations; one more preemption, 3 threads of 2",
}
OUTSIDE = (
    "several queues of one name at the same time (they share their counters); "
    "more elements than the counter's type carries"
)

OPS = ["put", "put_nowait", "put_wait", "get", "get_nowait", "get_wait"]


def new_env():
    """An environment with metrics."""
    return TelemetryEnvironment(256, 0.0, 1.0, app_id_basis=0.5)


class Counted:
    """A queue and what its counters should be."""

    def __init__(self, cx, env, size, how="class"):
        self.cx = cx
        self.env = env
        self.size = size
        self.name = "some_queue"
        if how == "class":
            self.queue = MeteredQueue("some", env, size)
        else:
            self.queue = create("some", env, size)
        self.held = []
        self.added = 0
        self.removed = 0

    def run(self, oper, item):
        """One operation, that must not wait forever."""
        full = 0 < self.size <= len(self.held)
        if oper.startswith("put"):
            if oper == "put":
                if full:
                    return
                ok, err = self.cx.catch(self.queue.put, item)
            elif oper == "put_nowait":
                ok, err = self.cx.catch(self.queue.put_nowait, item)
            else:
                ok, err = self.cx.catch(self.queue.put, item, True, 0.5)
            self.cx.check(ok != full, "put unless it is full")
            if ok:
                self.held.append(item)
                self.added += 1
            else:
                self.cx.check(isinstance(err, Full), "reports that")
            return
        empty = not self.held
        if oper == "get":
            if empty:
                return
            ok, got = self.cx.catch(self.queue.get)
        elif oper == "get_nowait":
            ok, got = self.cx.catch(self.queue.get_nowait)
        else:
            ok, got = self.cx.catch(self.queue.get, True, 0.5)
        self.cx.check(ok != empty, "get unless it is empty")
        if ok:
            self.cx.check(got == self.held.pop(0), "in order")
            self.removed += 1
        else:
            self.cx.check(isinstance(got, Empty), "reports that")

    def check(self):
        """Counters agree with the queue."""
        check_metrics(
            self.cx, self.env, self.name, len(self.held), self.added,
            self.removed,
        )
        self.cx.check(self.queue.qsize() == len(self.held), "elements held")


def check_metrics(cx, env, name, held, added, removed):
    """Counters of one queue."""
    cx.check(env.get_metric(f"{name}.elements") == held, "elements")
    cx.check(env.get_metric(f"{name}.total_enqueued") == added, "enqueued")
    cx.check(env.get_metric(f"{name}.total_dequeued") == removed, "dequeued")


@case(
    size=[0, 1, 2],
    first=OPS[:4],
    how=["class", "create"],
    quick={"steps": [5]},
    thorough={"steps": [7]},
    _max_paths=400000,
)
def operations(cx, size, first, how, steps):
    """Any operations on a queue."""
    counted = Counted(cx, new_env(), size, how)
    ops = OPS if how == "class" and size else OPS[1::3]
    for step in range(steps):
        oper = first if step == 0 else cx.choice(f"op{step}", ops)
        counted.run(oper, step)
    counted.check()
    cx.check(cx.free_locks(), "no lock is held")


@case(count=[1, 2, 3])
def frames(cx, count):
    """The environment's frame queue and a writer's queues."""
    env = new_env()
    env.add_channel("c", Primitive.UINT8, 1.0, True, (3, 0.0))
    writer, queue = default_writer("writer", env=env)
    _, client = writer.registered_queue("client")
    env.dispatch(10.0)
    total = env.frame_queue.qsize()
    check_metrics(cx, env, "frame_queue", total, total, 0)
    taken = 0
    for idx in range(count):
        if env.frame_queue.qsize() and cx.bool(f"take{idx}"):
            frame = env.get_next_frame()
            taken += 1
            queue.put(frame)
            env.add_channel(f"more{idx}", Primitive.INT16, 1.0)
    check_metrics(cx, env, "frame_queue", total - taken, total, taken)
    check_metrics(cx, env, "writer.queue_queue", taken, taken, 0)
    with writer.booted():
        cx.world.idle()
    check_metrics(cx, env, "writer.queue_queue", 0, taken + 1, taken + 1)
    check_metrics(cx, env, "client_queue", taken, taken, 0)


@case(
    size=[0, 1, 2],
    quick={"who": [("ppc", 1), ("pc", 2), ("pp", 2)]},
    thorough={"who": [("ppc", 2), ("pc", 3), ("pp", 3)]},
    _max_paths=100000,
)
def threads(cx, size, who):
    """Producers and a consumer."""
    who, preempt = who
    if who == "pp" and size:
        return
    each = 1 if len(who) == 3 and preempt == 1 else 2
    env = new_env()
    queue = MeteredQueue("some", env, size)
    got = []
    added = []

    def producer(num):
        """Two elements."""

        def task():
            for idx in range(each):
                if idx == 0 and size != 1:
                    queue.put((num, idx))
                    added.append((num, idx))
                else:
                    try:
                        queue.put_nowait((num, idx))
                        added.append((num, idx))
                    except Full:
                        pass

        return task

    def consumer():
        """Take two, if there are."""
        for _ in range(each):
            try:
                got.append(queue.get(True, 1.0))
            except Empty:
                pass

    tasks = [producer(0), producer(1)][: who.count("p")]
    cx.tasks(*tasks, *[consumer] * who.count("c"), preempt=preempt)
    cx.check(cx.free_locks(), "no lock is held")
    check_metrics(
        cx, env, "some_queue", len(added) - len(got), len(added), len(got)
    )
    for num in range(2):
        mine = [x for x in got if x[0] == num]
        cx.check(mine == sorted(mine), "in order")
    while queue.qsize():
        got.append(queue.get())
    cx.check(sorted(got) == sorted(added), "each once")
