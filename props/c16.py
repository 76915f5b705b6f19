"""C16: the service of commands."""

import json

from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.telemetry.environment import TelemetryEnvironment

from vsym.api import case

BOUNDS = {
    "quick": "2 commands of any kind out of 18, with data of any kind, to "
    "handlers that agree, refuse, raise, or answer or change anything, with "
    "callbacks that may raise; then a good one; 2 threads of 2 commands each "
    "with 1 preemption",
    "thorough": "3 commands; 2 preemptions",
}
OUTSIDE = (
    "objects whose text can't be made; registering handlers while the service "
    "runs; commands named by something other than text"
)


class Oops(Exception):
    """What handlers raise."""


class Odd:
    """Not serializable."""


COMMANDS = {
    "nothing": None,
    "number": 5,
    "text": "one",
    "list": ["command"],
    "empty": {},
    "other key": {"data": {"command": "one"}},
    "no name": {"command": None},
    "unhashable": {"command": ["one"]},
    "dict": {"command": {"command": "one"}},
    "unknown": {"command": "unknown", "data": {"a": 1}},
    "blank": {"command": ""},
    "case": {"command": "One"},
    "one": {"command": "one"},
    "two": {"command": "two", "extra": 5},
    "help": {"command": "help"},
    "help one": {"command": "help", "data": {"command": "two", "indent": 1}},
    "help unknown": {"command": "help", "data": {"command": "unknown"}},
    "help odd": {"command": "help", "data": {"command": ["one"]}},
}
DATA = {
    "none": None,
    "number": 7,
    "list": [1],
    "good": {"a": 1},
    "odd": {"a": Odd(), 5: {1, 2}},
}
ANSWERS = {
    "yes": (True, "yes"),
    "no": (False, "no"),
    "odd": (True, None),
    "nothing": None,
    "many": (True, "a", "b"),
}


class Model:
    """A service, and what it should have done."""

    def __init__(self, cx, answer="yes", angry=(), metrics=True):
        self.cx = cx
        self.env = TelemetryEnvironment(256, 0.0, 1.0) if metrics else None
        self.daemon = CommandQueueDaemon("cmd", self.env)
        self.answer = answer
        self.angry = angry
        self.log = []
        self.want = []
        self.counts = {
            "command_count": 0, "success_count": 0, "failure_count": 0,
            "rejected_count": 0,
        }
        self.daemon.register_consumer(
            "one", self.handler("one", answer), self.callback("one"), "first"
        )
        self.daemon.register_consumer(
            "two", self.handler("two a", answer), None, "second"
        )
        self.daemon.register_consumer(
            "two", self.handler("two b", "yes"), self.callback("two b"),
            "third",
        )

    def handler(self, name, answer):
        """A handler."""

        def handle(data):
            self.log.append(("run", name, dict(data), data["missing"]))
            if answer == "raise":
                raise Oops(name)
            if answer == "keys":
                data["new"] = 1
                data.pop("a", None)
            return ANSWERS[answer] if answer != "keys" else (True, "yes")

        return handle

    def callback(self, name):
        """A result callback."""

        def told(result, message):
            self.log.append(("told", name, result, message))
            if name in self.angry:
                raise Oops(name)

        return told

    def expect_run(self, handler, answer, data, callbacks):
        """A handler runs, and some are told."""
        self.want.append(("run", handler, data, None))
        good = answer in ("yes", "odd", "keys")
        message = {"yes": "yes", "keys": "yes", "no": "no", "odd": None}.get(
            answer, any
        )
        for name in callbacks:
            self.want.append(("told", name, good, message))
        self.counts["success_count" if good else "failure_count"] += 1

    def command(self, kind, data, name):
        """Queue a command."""
        elem = COMMANDS[kind]
        if isinstance(elem, dict):
            elem = dict(elem)
            if kind in ("one", "two") and data != "missing":
                elem["data"] = DATA[data]
        given = elem.get("data") if isinstance(elem, dict) else None
        if not isinstance(given, dict):
            given = {}
        cmd = [name] if name else []
        self.counts["command_count"] += 1
        if kind == "one":
            self.expect_run("one", self.answer, given, ["one"] + cmd)
        elif kind == "two":
            self.expect_run("two a", self.answer, given, cmd)
            self.expect_run("two b", "yes", given, ["two b"] + cmd)
        elif kind.startswith("help"):
            good = kind in ("help", "help one")
            if cmd:
                self.want.append(("told", name, good, kind))
            self.counts["success_count" if good else "failure_count"] += 1
        else:
            if cmd:
                self.want.append(("told", name, False, any))
            self.counts["rejected_count"] += 1
        self.daemon.enqueue(elem, self.callback(name) if name else None)

    def check(self):
        """Compare."""
        cx = self.cx
        cx.check(len(self.log) == len(self.want), "each exactly once")
        everything = {
            "one": ["first"], "two": ["second", "third"],
            "help": ["inquire about available command usages"],
        }
        for got, want in zip(self.log, self.want):
            cx.check(got[:2] == want[:2], "in order")
            if got[0] == "run":
                cx.check(got[2:] == want[2:], "what the handler is given")
                continue
            cx.check(got[2] == want[2], "outcome")
            if want[3] is any:
                continue
            if isinstance(want[3], str) and want[3].startswith("help"):
                if want[3] == "help":
                    usage = json.loads(got[3])
                    cx.check(
                        sorted(usage) == sorted(everything)
                        and usage["one"] == ["first"]
                        and usage["two"] == ["second", "third"],
                        "usages of all commands",
                    )
                elif want[3] == "help one":
                    cx.check(
                        json.loads(got[3]) == {"two": ["second", "third"]},
                        "usages of the command",
                    )
                continue
            cx.check(got[3] == want[3], "message")
        if self.env is not None:
            for name, want in self.counts.items():
                cx.check(self.env.get_metric("cmd." + name) == want, name)


GOOD = ["unknown", "number", "unhashable", "one", "two", "help"]


@case(
    first=list(COMMANDS),
    quick={"count": [2]},
    thorough={"count": [3]},
    _max_paths=100000,
)
def commands(cx, first, count):
    """Commands of any kind, then a good one."""
    known = first in ("one", "two")
    answer = "yes"
    angry = []
    if known:
        answer = cx.choice("answer", list(ANSWERS) + ["raise", "keys"])
        if cx.bool("result callbacks raise"):
            angry += ["one", "two b"]
    if cx.bool("command callback raises"):
        angry.append("cb0")
    model = Model(cx, answer, angry)
    if cx.bool("running"):
        cx.check(model.daemon.start(), "starts")
        cx.world.idle()
        running = True
    else:
        running = False
    for idx in range(count):
        kind = first if idx == 0 else cx.choice(f"kind{idx}", GOOD)
        data = "missing"
        if kind in ("one", "two"):
            options = ["good"]
            if idx == 0 and answer in ("yes", "raise"):
                options = ["missing"] + list(DATA)
            data = cx.choice(f"data{idx}", options)
        named = True
        if idx == 0:
            named = cx.bool("with callback")
        model.command(kind, data, f"cb{idx}" if named else None)
        if running and idx == 0:
            cx.world.idle()
            model.check()
    model.command("two", "good", "last")
    if not running:
        cx.check(not model.log, "nothing until it's started")
        cx.check(model.daemon.start(), "starts")
    cx.world.idle()
    model.check()
    cx.check(model.daemon.get_state_str() == "running", "goes on")
    cx.check(model.daemon.stop(), "stops")


@case()
def restarted(cx):
    """Commands are handled by the next start."""
    model = Model(cx, cx.choice("answer", ["yes", "raise"]))
    model.daemon.start()
    cx.world.idle()
    model.command("one", "good", "a")
    cx.check(model.daemon.stop(), "stops once it's handled")
    model.check()
    count = len(model.log)
    model.command("one", "good", "b")
    cx.world.idle()
    cx.check(len(model.log) == count, "nothing until it's started")
    model.daemon.start()
    cx.world.idle()
    model.check()
    cx.check(model.daemon.stop(), "stops")


@case()
def execute(cx):
    """A command whose result is awaited."""
    answer = cx.choice("answer", list(ANSWERS) + ["raise"])
    model = Model(cx, answer, metrics=False)
    running = cx.bool("running")
    kind = cx.choice("kind", ["one", "unknown", "number", "help", "odd help"])
    if running:
        model.daemon.start()
    elem = COMMANDS["help unknown" if kind == "odd help" else kind]
    before = cx.world.now
    result, message = model.daemon.execute(elem)
    good = running and (
        kind == "help" or kind == "one" and answer in ("yes", "odd")
    )
    cx.check(result == good, "result")
    if good and kind == "one":
        cx.check(message == ANSWERS[answer][1], "message")
    elif good:
        cx.check("two" in json.loads(message), "message")
    if running:
        cx.check(cx.world.now - before < 1.0, "at once")
    else:
        model.daemon.start()
        cx.world.idle()
    cx.check(model.daemon.execute(COMMANDS["help"])[0], "it goes on")
    cx.check(model.daemon.stop(), "stops")


@case()
def nested(cx):
    """Handlers and callbacks that use the service themselves."""
    daemon = CommandQueueDaemon("cmd")
    where = cx.choice("where", ["handler", "callback", "told"])
    what = cx.choice("what", ["same", "other", "queue", "help"])
    log = []
    told = []

    def late(data):
        log.append(("late", data["num"]))
        return True, "late"

    def act(num):
        if num != 0:
            return
        if what == "same":
            daemon.register_consumer("cmd", late)
        elif what == "other":
            daemon.register_consumer("new", late)
        elif what == "queue":
            daemon.enqueue({"command": "cmd", "data": {"num": 1}}, None)
        else:
            daemon.register_consumer("help", late)

    def handler(data):
        log.append(("first", data["num"]))
        if where == "handler":
            act(data["num"])
        return True, str(data["num"])

    def second(data):
        log.append(("second", data["num"]))
        return False, str(data["num"])

    def callback(result, message):
        told.append(("first", result, message))
        if where == "callback":
            act(int(message))

    def mine(result, message):
        told.append(("mine", result, message))
        if where == "told" and message == "0" and result:
            act(0)

    daemon.register_consumer("cmd", handler, callback)
    daemon.register_consumer("cmd", second)
    cx.check(daemon.start(), "starts")
    daemon.enqueue({"command": "cmd", "data": {"num": 0}}, mine)
    cx.world.idle()
    want = [("first", 0), ("second", 0)]
    tells = [("first", True, "0"), ("mine", True, "0"), ("mine", False, "0")]
    if what == "queue":
        want += [("first", 1), ("second", 1)]
        tells += [("first", True, "1")]
    cx.check(log == want, "who was registered when it was handled")
    cx.check(told == tells, "told once")
    daemon.enqueue({"command": "cmd", "data": {"num": 2}}, mine)
    daemon.enqueue({"command": "new", "data": {"num": 3}}, None)
    daemon.enqueue({"command": "help", "data": {"num": 4}}, None)
    cx.world.idle()
    want += [("first", 2), ("second", 2)]
    tells += [("first", True, "2"), ("mine", True, "2"), ("mine", False, "2")]
    if what == "same":
        want.append(("late", 2))
        tells.append(("mine", True, "late"))
    elif what == "other":
        want.append(("late", 3))
    elif what == "help":
        want.append(("late", 4))
    cx.check(log == want, "all that are registered")
    cx.check(told == tells, "told once")
    cx.check(daemon.stop(), "stops")


@case(
    quick={"preempt": [1]},
    thorough={"preempt": [2]},
    _max_paths=100000,
)
def together(cx, preempt):
    """Commands of several threads."""
    daemon = CommandQueueDaemon("cmd")
    ran = []
    told = []
    bad = cx.choice("bad", [None, 0, 1])

    def handler(data):
        ran.append(data["num"])
        if data["num"] == bad:
            raise Oops()
        return True, str(data["num"])

    daemon.register_consumer("cmd", handler)
    daemon.start()

    def task(nums):
        for num in nums:
            daemon.enqueue(
                {"command": "cmd", "data": {"num": num}},
                lambda *x, num=num: told.append((num,) + x),
            )

    cx.tasks(lambda: task([0, 1]), lambda: task([2, 3]), preempt=preempt)
    cx.world.idle()
    cx.check(sorted(ran) == [0, 1, 2, 3], "each once")
    cx.check([x[0] for x in told] == ran, "each once, in order")
    cx.check(
        ran.index(0) < ran.index(1) and ran.index(2) < ran.index(3), "in order"
    )
    for num, good, message in told:
        cx.check(good == (num != bad), "outcome")
        cx.check(not good or message == str(num), "message")
    cx.check(daemon.stop(), "stops")
