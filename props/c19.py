"""C19: managers of services."""

from itertools import permutations

from vtelem.daemon import DaemonBase
from vtelem.daemon.manager import DaemonManager
from vtelem.daemon.queue import QueueDaemon
from vtelem.enums.daemon import DaemonOperation, DaemonState

from vsym.api import case

BOUNDS = {
    "quick": "any acyclic dependencies of 4 services, known in 6 orders, also "
    "on an unknown one, any one of which fails; 20 services that depend on "
    "each other service before them; 3 requests in any order; 2 threads",
    "thorough": "5 services in 10 orders; 4 requests; 3 threads",
}
OUTSIDE = "cyclic dependencies; services that use their manager"

OPERATIONS = {x.name.lower(): x for x in DaemonOperation}
ORDERS = {
    4: list(permutations(range(4)))[::4],
    5: list(permutations(range(5)))[::12],
}


class Recorder(DaemonBase):
    """A service that records its operations."""

    def __init__(self, name, log, good=True):
        super().__init__(name)
        self.log = log
        self.good = good

    def perform(self, action, *args, **kwargs):
        """Record an operation."""
        self.log.append((self.name, action, args, kwargs))
        return self.good


@case(
    order=[0, 1, 2, 3, 4, 5],
    quick={"size": [4]},
    thorough={"size": [4, 5]},
    _max_paths=100000,
)
def dependencies(cx, order, size):
    """An operation of all services."""
    log = []
    manager = DaemonManager()
    bad = cx.choice("bad", [None] + list(range(size)))
    deps = {
        x: [y for y in range(x) if cx.bool(f"{x} needs {y}")]
        for x in range(size)
    }
    ranks = ORDERS[size][order]
    needs_unknown = cx.bool("unknown") if bad is None else False
    for num in ranks:
        names = [f"d{x}" for x in deps[num]]
        if num == size - 1 and needs_unknown:
            names.append("unknown")
        daemon = Recorder(f"d{num}", log, num != bad)
        cx.check(
            manager.add_daemon(daemon, names if names else None), "added"
        )
    oper = cx.choice("operation", ["start", "stop"])
    want = (OPERATIONS[oper], (1,), {"x": 2})
    if cx.bool("by name"):
        result = manager.perform_str_all(oper, 1, x=2)
    else:
        result = manager.perform_all(want[0], 1, x=2)
    cx.check(
        result == (bad is None and not needs_unknown),
        "succeeds only if every operation did",
    )
    names = [x[0] for x in log]
    cx.check(sorted(names) == [f"d{x}" for x in range(size)], "each, once")
    cx.check(all(x[1:] == want for x in log), "what was asked")
    cx.check(
        all(
            names.index(f"d{y}") < names.index(f"d{x}")
            for x in deps
            for y in deps[x]
        ),
        "dependencies first",
    )
    cx.check(
        set(manager.states()) == set(names), "no other services are known"
    )


@case(
    quick={"size": [20]},
    thorough={"size": [20, 30]},
)
def many(cx, size):
    """Many services, with many dependencies."""
    log = []
    manager = DaemonManager()
    kind = cx.choice("kind", ["all", "chain", "tree", "first", "none"])
    order = list(range(size))
    if cx.bool("reversed"):
        order.reverse()
    first = cx.choice("first", [0, size // 2, size - 1])
    order.remove(first)
    order.insert(0, first)
    deps = {}
    for num in order:
        deps[num] = {
            "all": list(range(num)),
            "chain": [num - 1] if num else [],
            "tree": [(num - 1) // 2] if num else [],
            "first": [0] if num else [],
            "none": [],
        }[kind]
        manager.add_daemon(
            Recorder(f"d{num}", log), [f"d{x}" for x in deps[num]]
        )
    ok, result = cx.catch(manager.perform_all, DaemonOperation.START)
    cx.check(ok, "any number of services can be operated")
    cx.check(result, "succeeds")
    names = [x[0] for x in log]
    cx.check(sorted(names) == sorted(f"d{x}" for x in order), "each, once")
    cx.check(
        all(
            names.index(f"d{y}") < names.index(f"d{x}")
            for x in deps
            for y in deps[x]
        ),
        "dependencies first",
    )


REQUESTS = ["add", "one", "one text", "all text", "get"]


@case(
    first=REQUESTS,
    quick={"steps": [3]},
    thorough={"steps": [4]},
    _max_paths=200000,
)
def names(cx, first, steps):
    """Services by their names."""
    log = []
    manager = DaemonManager()
    known = {}
    everything = ["a", "b", "all"]
    actions = ["STOP", "starts", "none"]
    for step in range(steps):
        if step == 0:
            what = first
        else:
            what = cx.choice(f"what{step}", REQUESTS)
        log.clear()
        if what in ("add", "one", "one text", "get"):
            name = cx.choice(f"name{step}", everything)
        if what == "add":
            good = name != "a" or step != 1 or cx.bool("good")
            daemon = Recorder(name, log, good)
            ok, res = cx.catch(manager.add_daemon, daemon)
            if name == "all":
                cx.check(not ok, "a reserved name is refused")
            else:
                cx.check(ok and res == (name not in known), "unique names")
                known.setdefault(name, daemon)
            cx.check(not log, "nothing is operated")
        elif what == "get":
            ok, res = cx.catch(manager.get, name)
            if name == "all":
                cx.check(not ok, "a reserved name is refused")
            else:
                cx.check(ok and res is known.get(name), "the service, if any")
        else:
            text = cx.choice(f"action{step}", actions)
            oper = OPERATIONS.get(text.lower())
            if what == "one":
                if oper is None:
                    break
                res = manager.perform(name, oper, step)
            elif what == "one text":
                res = manager.perform_str(name, text, step)
            else:
                res = manager.perform_str_all(text, step)
            if oper is None:
                want = []
            elif what == "all text":
                want = list(known)
            else:
                want = [name] if name in known else []
            cx.check(
                sorted(log)
                == [(x, oper, (step,), {}) for x in sorted(want)],
                "exactly the named services are operated",
            )
            good = oper is not None and all(known[x].good for x in want)
            if what != "all text":
                good = good and name in known
            cx.check(res == good, "success only if it was done")
        ok, res = cx.catch(manager.states)
        cx.check(ok and res == {x: "idle" for x in known}, "state of each")
        cx.check(
            manager.states(False) == {x: DaemonState.IDLE for x in known},
            "state of each",
        )


@case(_max_paths=100000)
def services(cx):
    """Services that run."""
    manager = DaemonManager()
    from queue import Queue

    handled = []
    queue = Queue()
    first = QueueDaemon("first", queue, handled.append)
    second = QueueDaemon("second", Queue(), handled.append)
    manager.add_daemon(second, ["first"])
    manager.add_daemon(first)
    want = "idle"
    for step in range(2):
        oper = cx.choice(
            f"oper{step}", ["start", "stop", "pause", "unpause", "restart", "none"]
        )
        ok, res = cx.catch(manager.perform_str_all, oper)
        cx.world.idle()
        cx.check(ok, "an operation gives its result")
        after, good = {
            ("idle", "start"): ("running", True),
            ("idle", "stop"): ("idle", True),
            ("idle", "unpause"): ("idle", True),
            ("running", "start"): ("running", True),
            ("running", "stop"): ("idle", True),
            ("running", "pause"): ("paused", True),
            ("running", "unpause"): ("running", True),
            ("running", "restart"): ("running", True),
            ("paused", "pause"): ("paused", True),
            ("paused", "unpause"): ("running", True),
        }.get((want, oper), (want, False))
        want = after
        cx.check(res == good, "result")
        cx.check(
            manager.states() == {"first": want, "second": want}, "states"
        )
    if want == "running":
        queue.put("element")
        cx.world.idle()
        cx.check(handled == ["element"], "it works")
    if want == "paused":
        cx.check(manager.perform_str_all("unpause"), "unpaused")
    cx.check(manager.perform_str_all("stop"), "stopped")


@case(
    quick={"threads": [2]},
    thorough={"threads": [3]},
    _max_paths=100000,
)
def together(cx, threads):
    """Requests of several threads."""
    log = []
    manager = DaemonManager()
    for name, deps in (("a", ["b"]), ("b", None)):
        manager.add_daemon(Recorder(name, log), deps)
    results = []
    what = cx.choice("what", ["all", "add", "both"])

    def operate(num):
        results.append(manager.perform_all(DaemonOperation.START, num))

    def add(_):
        results.append(manager.add_daemon(Recorder("c", log)))

    tasks = []
    for num in range(threads):
        func = add if what == "add" or what == "both" and num else operate
        tasks.append(lambda func=func, num=num: func(num))
    cx.tasks(*tasks, preempt=2)
    if what != "all":
        good = 1 + (what == "both")
        cx.check(sum(results) == good, "added once")
    else:
        cx.check(results == [True] * threads, "each succeeds")
    cx.check(cx.free_locks(), "no lock is held")
    runs = [x[2][0] for x in log if x[0] == "b"]
    expected = []
    for num in runs:
        expected += [("b", num), ("a", num)]
        if ("c", DaemonOperation.START, (num,), {}) in log:
            expected.append(("c", num))
    cx.check(
        sorted((x[0], x[2][0]) for x in log) == sorted(expected), "each, once"
    )
    cx.check(
        [x[2][0] for x in log if x[0] == "a"] == runs, "one after the other"
    )
    for num in runs:
        mine = [x[0] for x in log if x[2][0] == num]
        cx.check(mine.index("b") < mine.index("a"), "dependencies first")
        first = [x[2][0] for x in log].index(num)
        cx.check(
            all(x[2][0] == num for x in log[first : first + len(mine)]),
            "one request after the other",
        )
