"""C26: requests and their handlers."""

import json
import threading
import time

from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import http as http_module
from vtelem.daemon.http import HttpDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.factories.telemetry_server import register_http_handlers
from vtelem.registry.service import ServiceRegistry
from vtelem.daemon.telemetry import TelemetryDaemon

from vsym.api import case

from props import httpkit

BOUNDS = {
    "quick": "any set of 6 handlers; paths of 2 and queries and url-encoded "
    "bodies of 3 printable ASCII characters; form data of up to 2 parts whose "
    "name and content are 2 characters",
    "thorough": "paths of 3, queries and url-encoded bodies of 4 and contents "
    "of 3 characters",
    "both": "the functions inherited from the standard library's request "
    "handler and its url parser are encoded as well",
}
OUTSIDE = (
    "percent-encoded paths (compared as they're sent); parameters of paths "
    "(after ';'); encoded characters above 127 in queries; bodies of other "
    "content types (not parsed, their handler gets no fields), form data "
    "without a boundary; sockets and TLS themselves"
)

URLENC = "application/x-www-form-urlencoded"
POOL = [
    ("GET", "ab"),
    ("POST", "ab"),
    ("GET", "A1"),
    ("GET", "a"),
    ("POST", "a/"),
    ("GET", "a-"),
]


def lower(char):
    """A character in lower case."""
    return char.lower()


class World:
    """A mapper whose handlers are recorded."""

    def __init__(self):
        self.mapper = httpkit.mapper()
        self.server = httpkit.Server(self.mapper)
        self.calls = []

    def add(self, method, path, text=None, fields=None):
        """Register a handler."""

        def func(_, data):
            entry = {}
            for key in list(data):
                entry[key] = data[key]
            missing = data["not a field"]
            if fields is not None:
                fields.append((entry, missing))
            self.calls.append((method, path, text))
            return True, "by " + path

        self.mapper.add_handler(method, path, func, f"{method} {path}")


@case(
    method=["GET", "HEAD", "POST"],
    quick={"size": [1, 2]},
    thorough={"size": [1, 2, 3]},
    _max_paths=100000,
)
def dispatch(cx, method, size):
    """Any path and any set of handlers."""
    world = World()
    there = [cx.bool(f"has {m} {p}") for m, p in POOL]
    for (meth, path), has in zip(POOL, there):
        if has:
            world.add(meth, path)
    text = cx.text("path", size, 0x21, 0x7E)
    cx.assume(cx.neg(text[0] == "/"))
    for char in text:
        cx.assume(
            cx.neg(cx.any([char == "?", char == "#", char == ";"]))
        )
    res = httpkit.send(cx, world.server, method, "/" + text)
    want = "GET" if method == "HEAD" else method
    found = None
    for (meth, path), has in zip(POOL, there):
        if has and meth == want and len(path) == size:
            same = cx.all(
                [lower(a) == b for a, b in zip(text, path.lower())]
            )
            if same:
                found = (meth, path, None)
    if found is None:
        cx.check(res.status == 404, "not found")
        cx.check_eq(world.calls, [], "no handler runs")
        cx.reach("not found")
    else:
        cx.check(res.status == 200, "found")
        cx.check_eq(world.calls, [found], "just the one that's registered")
        cx.reach("found")


@case(quick={"size": [2]}, thorough={"size": [3]}, _max_paths=50000)
def index(cx, size):
    """The index lists what's registered, whatever was asked for before."""
    world = World()
    there = [cx.bool(f"has {m} {p}") for m, p in POOL[:4]]
    for (meth, path), has in zip(POOL, there):
        if has:
            world.add(meth, path)
    method = cx.choice("method", ["GET", "POST", "HEAD"])
    path = "/x" + cx.text("path", size - 1, 0x40, 0x5A)
    for _ in range(2):
        res = httpkit.send(cx, world.server, method, path)
        cx.check(res.status == 404, "not found")
    res = httpkit.send(cx, world.server, "GET", "/")
    cx.check(res.status == 200, "an index")
    got = json.loads(res.body.decode("utf-8"))
    want = {"GET": [("/", "request index")]}
    for (meth, name), has in zip(POOL, there):
        if has:
            want.setdefault(meth, []).append(
                ("/" + name.lower(), f"{meth} {name}")
            )
    seen = {}
    for meth, items in got.items():
        pairs = [(x["path"], x.get("description")) for x in items]
        if pairs:
            seen[meth] = sorted(pairs)
    for meth, items in want.items():
        want[meth] = sorted(items)
    cx.check_eq(seen, want, "exactly what's registered")
    cx.check_eq(world.calls, [], "no handler runs")


@case(again=[False, True])
def replaced(cx, again):
    """The last handler registered for a path is the one."""
    world = World()
    names = ["x", "X"]
    order = [cx.choice(f"name{i}", names) for i in range(2)]
    for idx, name in enumerate(order):
        world.add("GET", name, idx)
        if again:
            httpkit.send(cx, world.server, "GET", "/x")
    world.calls.clear()
    path = cx.choice("path", names)
    res = httpkit.send(cx, world.server, "GET", "/" + path)
    cx.check(res.status == 200, "found")
    cx.check_eq(world.calls, [("GET", order[1], 1)], "the last one")


def digit(char):
    """The value of a hexadecimal digit (None if it isn't one)."""
    code = ord(char)
    if code >= 48 and code <= 57:
        return code - 48
    if code >= 65 and code <= 70:
        return code - 55
    if code >= 97 and code <= 102:
        return code - 87
    return None


def unquote(cx, text):
    """Decode text of a query."""
    out = ""
    idx = 0
    while idx < len(text):
        char = text[idx]
        if char == "+":
            out += " "
        elif char == "%" and idx + 2 < len(text):
            left = digit(text[idx + 1])
            right = digit(text[idx + 2])
            if left is None or right is None:
                out += char
            else:
                out += chr(left * 16 + right)
                idx += 2
        else:
            out += char
        idx += 1
    return out


def fields_of(cx, text):
    """The fields of an url-encoded text: (name, value) pairs."""
    out = []
    start = 0
    for idx in range(len(text) + 1):
        if idx == len(text) or text[idx] == "&":
            part = text[start:idx]
            start = idx + 1
            pos = 0
            while pos < len(part) and not part[pos] == "=":
                pos += 1
            value = part[pos + 1 :]
            if len(value) > 0:
                out.append((unquote(cx, part[:pos]), unquote(cx, value)))
    return out


def grouped(pairs):
    """Fields by name, in order: [[name, [value...]]...]"""
    out = []
    for name, value in pairs:
        for item in out:
            if item[0] == name:
                item[1].append(value)
                break
        else:
            out.append([name, [value]])
    return out


def check_fields(cx, seen, want):
    """A handler got exactly these fields."""
    cx.check_eq(len(seen), 1, "one handler ran")
    got, missing = seen[0]
    cx.check(missing is None, "fields that weren't sent are None")
    keys = list(got)
    cx.check_eq(len(keys), len(want), "as many fields as were sent")
    conds = []
    for name, values in want:
        conds.append(
            cx.any(
                [
                    cx.all(
                        [
                            key == name,
                            isinstance(got[key], list)
                            and len(got[key]) == len(values)
                            and cx.all(
                                [a == b for a, b in zip(got[key], values)]
                            ),
                        ]
                    )
                    for key in keys
                ]
            )
        )
    cx.check(cx.all(conds), "exactly the values that were sent")


def plain(cx, text, query):
    """Restrict a text to what a query can hold."""
    for idx, char in enumerate(text):
        if query:
            cx.assume(cx.neg(char == "#"))
        if idx + 1 < len(text):
            after = ord(text[idx + 1])
            cx.assume(
                cx.implies(
                    char == "%",
                    cx.any([after < 0x38, cx.all([after > 0x39, after < 0x41]),
                            cx.all([after > 0x46, after < 0x61]),
                            after > 0x66]),
                )
            )


PREFIX = ["", "a=", "a=1&", "%"]


@case(
    how=["query", "head", "form", "post"],
    prefix=PREFIX,
    quick={"size": [3]},
    thorough={"size": [3, 4]},
    _max_paths=200000,
)
def encoded(cx, how, prefix, size):
    """Any query or url-encoded form."""
    world = World()
    seen = []
    for method in ("GET", "POST"):
        world.add(method, "a", None, seen)
        world.add(method, "b", None, [])
    text = prefix + cx.text("text", size, 0x21, 0x7E)
    plain(cx, text, how != "form")
    want = grouped(fields_of(cx, text))
    if how == "form":
        data = text.encode("utf-8")
        res = httpkit.send(
            cx,
            world.server,
            "POST",
            "/a",
            [("Content-Length", str(len(data))), ("Content-Type", URLENC)],
            data + b"&z=rest",
        )
        method = "POST"
    else:
        method = {"query": "GET", "head": "HEAD", "post": "POST"}[how]
        res = httpkit.send(cx, world.server, method, "/a?" + text)
    cx.check(res.status == 200, "success")
    method = "GET" if method == "HEAD" else method
    cx.check_eq(world.calls, [(method, "a", None)], "its handler runs once")
    check_fields(cx, seen, want)
    cx.reach("done")


@case(kind=["length", "type", "both", "charset", "case"])
def both(cx, kind):
    """A query and a form: all fields, the query's win."""
    world = World()
    seen = []
    world.add("POST", "a", None, seen)
    left = cx.text("query", 1, 0x61, 0x64)
    right = cx.text("form", 1, 0x61, 0x64)
    path = "/a?" + left + "=q&c=q2"
    body = (right + "=f&b=f2").encode("utf-8")
    headers = [("Content-Length", str(len(body))), ("Content-Type", URLENC)]
    if kind == "length":
        headers = headers[1:]
    elif kind == "type":
        headers = headers[:1]
    elif kind == "charset":
        headers[1] = ("Content-Type", URLENC + "; charset=utf-8")
    elif kind == "case":
        headers = [(x[0].lower(), x[1]) for x in headers]
    res = httpkit.send(cx, world.server, "POST", path, headers, body)
    cx.check(res.status == 200, "success")
    query = grouped([(left, "q"), ("c", "q2")])
    want = query
    if kind not in ("length", "type"):
        form = grouped([(right, "f"), ("b", "f2")])
        for item in form:
            for other in query:
                if other[0] == item[0]:
                    break
            else:
                want = want + [item]
    check_fields(cx, seen, want)


BOUNDARIES = [
    "boundary=XyZ",
    'boundary="XyZ"',
    "charset=utf-8; boundary=XyZ",
    "boundary=XyZ; charset=utf-8",
    "Boundary=XyZ",
    'boundary="X=y/:?"',
]


@case(
    param=BOUNDARIES,
    num=[1, 2],
    quick={"size": [0, 2]},
    thorough={"size": [0, 2, 3]},
    _max_paths=100000,
)
def multipart(cx, param, num, size):
    """Form data of several parts."""
    world = World()
    seen = []
    world.add("POST", "a", None, seen)
    want = []
    text = ""
    mark = "X=y/:?" if "X=y" in param else "XyZ"
    which = cx.pick("symbolic", num) if num > 1 else 0
    for idx in range(num):
        if idx == which:
            name = cx.text("name", 2, 0x20, 0x7E)
            for char in name:
                cx.assume(cx.neg(cx.any([char == '"', char == "\\"])))
            content = cx.text("content", size, 0, 0x7E)
        else:
            name = "other"
            content = "some\r\n\r\ntext"
        text = text + (
            "--" + mark + '\r\nContent-Disposition: form-data; name="'
            + name
            + '"; filename="f'
            + str(idx)
            + '"\r\nContent-Type: text/plain\r\n\r\n'
            + content
            + "\r\n"
        )
        want.append((name, f"f{idx}", content))
    body = (text + "--" + mark + "--\r\n").encode("utf-8")
    res = httpkit.send(
        cx,
        world.server,
        "POST",
        "/a",
        [
            ("Content-Length", str(len(body))),
            ("Content-Type", "multipart/form-data; " + param),
        ],
        body,
    )
    cx.check(res.status == 200, "success")
    cx.check_eq(len(seen), 1, "one handler ran")
    got, _ = seen[0]
    cx.check_eq(list(got), ["parts"], "just parts")
    cx.check_eq(len(got["parts"]), num, "as many parts as were sent")
    for part, (name, filename, content) in zip(got["parts"], want):
        head = part["headers"]["content-disposition"]
        cx.check(head["type"] == "form-data", "form data")
        cx.check(head["name"] == name, "its name")
        cx.check(head["filename"] == filename, "its filename")
        cx.check(
            part["headers"]["content-type"] == "text/plain", "other headers"
        )
        cx.check(
            "\r\n".join(part["body"]) == content + "\r\n", "its content"
        )
    cx.reach("parts")


@case(kind=["form", "multipart", "none", "other"])
def empty(cx, kind):
    """A body without content isn't a bad request."""
    world = World()
    seen = []
    world.add("POST", "a", None, seen)
    size = cx.choice("size", ["0", "00", " 0 "])
    headers = [("Content-Length", size)]
    if kind == "form":
        headers.append(("Content-Type", URLENC))
    elif kind == "multipart":
        headers.append(("Content-Type", "multipart/form-data; boundary=x"))
    elif kind == "other":
        headers.append(("Content-Type", "text/plain"))
    path = cx.choice("path", ["/a", "/a?q=1"])
    res = httpkit.send(cx, world.server, "POST", path, headers, b"a=b")
    cx.check(res.status == 200, "success")
    cx.check_eq(world.calls, [("POST", "a", None)], "its handler runs once")
    want = grouped([("q", "1")] if path != "/a" else [])
    if kind == "multipart":
        return
    check_fields(cx, seen, want)


LENGTHS = ["x", "", "-1", "-5", "1.5", "0x3", "3 3", "9" * 3 + "x"]


@case(bad=["length", "utf-8", "uri", "multipart"])
def invalid(cx, bad):
    """Requests that can't be parsed run no handler."""
    world = World()
    for method in ("GET", "POST"):
        world.add(method, "a")
    path = "/a"
    size = "3"
    kind = URLENC
    body = b"a=b"
    if bad == "length":
        size = cx.choice("length", LENGTHS)
    elif bad == "utf-8":
        num = cx.int("byte", 0x80, 0xFF)
        body = b"a=" + bytes([num])
    elif bad == "uri":
        path = cx.choice("path", ["//[", "http://[/a", "//[x]/a", "//a]/a"])
    else:
        kind = "multipart/form-data; boundary=x"
        body = b"--x" + bytes([cx.int("byte", 0x80, 0xFF)]) + b"\r\n"
        size = "6"
    headers = [("Content-Length", size), ("Content-Type", kind)]
    method = "POST"
    if bad == "uri":
        method = cx.choice("method", ["GET", "HEAD", "POST"])
    res = httpkit.send(cx, world.server, method, path, headers, body)
    cx.check(res.status == 400, "a bad request")
    cx.check_eq(world.calls, [], "no handler runs")
    # others are still served
    res = httpkit.send(cx, world.server, "GET", "/a")
    cx.check(res.status == 200, "the next one is served")


class FakeServer:
    """What an http service needs of a server."""

    bound: list = []

    def __init__(self, address, handler):
        self.server_address = ("0.0.0.0", 4321)
        self.address = address
        self.handler = handler
        self.down = threading.Event()
        self.closed = 0
        self.served = 0
        self.stop = False
        self.socket = "socket"
        FakeServer.bound.append(self)

    def serve_forever(self, interval):
        """Serve until it's shut down."""
        self.down.clear()
        self.served += 1
        if self.hook is not None:
            self.hook()
        while not self.stop:
            time.sleep(interval)
        self.stop = False
        self.down.set()

    hook = None

    def shutdown(self):
        """Stop serving."""
        self.stop = True
        self.down.wait()

    def server_close(self):
        """Close the socket."""
        self.closed += 1


class FakeTls:
    """What's needed of the 'ssl' module."""

    PROTOCOL_TLS_SERVER = "server"

    def __init__(self, cx):
        self.cx = cx

    def SSLContext(self, protocol):  # pylint: disable=invalid-name
        """A context."""
        self.cx.check_eq(protocol, "server", "the server's side")
        return FakeContext()


class FakeContext:
    """A context of TLS."""

    def __init__(self):
        self.chain = None

    def load_cert_chain(self, cert, key=None):
        """Load a certificate."""
        self.chain = (cert, key)

    def wrap_socket(self, sock, server_side=False):
        """Wrap a socket."""
        assert server_side and sock == "socket"
        return FakeSocket(("wrapped",) + self.chain)


class FakeSocket:
    """A wrapped socket."""

    def __init__(self, what):
        self.what = what

    def __eq__(self, other):
        return self.what == other

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None


@case(
    tls=[False, True],
    quick={"steps": [3]},
    thorough={"steps": [5]},
    _max_paths=50000,
)
def service(cx, tls, steps):
    """The service: starts, stops and closes."""
    FakeServer.bound = []
    cx.patch(http_module, "ThreadingHTTPServer", FakeServer)
    cx.patch(http_module, "ssl", FakeTls(cx))
    daemon = HttpDaemon("http", handler_class=MapperAwareRequestHandler)
    server = daemon.server
    calls = []
    daemon.add_handler(
        "GET", "a", lambda r, d: calls.append(0) or (True, "x"), "some"
    )
    registry = ServiceRegistry()
    if tls:
        daemon.use_tls("key", "cert")

    def hook():
        # (while it serves)
        cx.check(not daemon.close(), "isn't closed while it's used")
        cx.check(server.closed == 0, "stays open")
        ok, _ = cx.catch(lambda: daemon.use_tls("key", "cert"))
        cx.check(not ok, "no change while it's used")
        cx.check_eq(
            server.socket,
            ("wrapped", "cert", "key") if tls else "socket",
            "what it's served on",
        )
        num = len(calls)
        httpkit.send(cx, server, "GET", "/a")
        cx.check_eq(len(calls), num + 1, "its handler")

    server.hook = hook
    closed = False
    starts = 0
    for step in range(steps):
        oper = cx.choice(f"op{step}", ["start", "close", "stop", "request"])
        if oper == "start":
            num = server.served
            server.socket = "socket"
            ok = daemon.start(
                service_registry=registry, first_start=starts == 0
            )
            cx.check(ok, "can be started")
            if not cx.bool("at once"):
                cx.world.idle(cx.world.now + 1)
                cx.check_eq(daemon.stop(), not closed, "can be stopped")
            elif not daemon.stop():
                cx.world.idle(cx.world.now + 1)
                daemon.stop()
            starts += 0 if closed else 1
            cx.check_eq(
                server.served, num + (0 if closed else 1), "serves if open"
            )
            cx.reach("served" if not closed else "closed")
        elif oper == "close":
            cx.check_eq(daemon.close(), not closed, "closed once")
            closed = True
        elif oper == "stop":
            cx.check(not daemon.stop(), "nothing to stop")
        else:
            num = len(calls)
            httpkit.send(cx, server, "GET", "/a")
            cx.check_eq(len(calls), num + 1, "its handler")
        cx.check_eq(server.closed, 1 if closed else 0, "closed if told to")
        cx.check(daemon.get_state() == DaemonState.IDLE, "idle")
        found = registry.get_id("http")
        cx.check_eq(found is not None, starts > 0, "known once it's served")
        if found is not None:
            cx.check_eq(
                registry.get_item(found), [("0.0.0.0", 4321)], "its address"
            )
    scheme = "https" if tls else "http"
    cx.check_eq(daemon.get_base_url(), scheme + "://0.0.0.0:4321/", "its url")


class Commands:
    """A command queue."""

    def __init__(self, cx):
        self.cx = cx
        self.seen = []
        self.good = None

    def execute(self, data):
        """Run a command."""
        self.seen.append(dict(data))
        self.good = bool(self.cx.bool("succeeds"))
        return self.good, "result of it"


class Remote:
    """A telemetry server."""

    def __init__(self):
        self.mapper = httpkit.mapper()
        self.stopped = 0
        self.judge = None
        self.handlers = []

    def add_handler(self, method, path, handle, description="", **kwargs):
        """Register a handler."""
        self.handlers.append((method, path))
        self.mapper.add_handler(method, path, handle, description, **kwargs)

    def stop_all(self):
        """Stop."""
        self.stopped += 1
        if self.judge is not None:
            self.judge()


def remote(cx):
    """A telemetry server and its handlers."""
    keeper = TimeKeeper("time", 0.5)
    telem = TelemetryDaemon("telem", 256, 0.5, keeper, app_id_basis=0.5)
    telem.add_channel("a", Primitive.UINT8, 1.0)
    server = Remote()
    cmd = Commands(cx)
    register_http_handlers(server, telem, cmd)
    return server, telem, cmd


@case(
    quick={"size": [1, 2]}, thorough={"size": [1, 2, 3]}, _max_paths=50000
)
def shutdown(cx, size):
    """The server is just stopped with its own identifier."""
    server, telem, _ = remote(cx)
    own = cx.int("own", 0, 99)
    telem.app_id.set(own)
    kind = cx.choice("kind", ["query", "form", "none", "get", "two"])
    given = cx.text("given", size, 0x30, 0x3A)
    text = "app_id=" + given
    headers = []
    body = b""
    method = "POST"
    path = "/shutdown"
    if kind == "query":
        path = path + "?" + text
    elif kind == "get":
        method = "GET"
        path = path + "?" + text
    elif kind == "form":
        body = text.encode("utf-8")
        headers = [
            ("Content-Length", str(len(body))),
            ("Content-Type", URLENC),
        ]
    elif kind == "two":
        path = path + "?app=1&" + text + "&app_id=x"
    num = 0
    digits = True
    for char in given:
        if char == ":":
            digits = False
        num = num * 10 + (ord(char) - 48)
    good = kind not in ("none", "get") and digits and num == own
    server.judge = lambda: cx.check(good, "isn't stopped by others")
    res = httpkit.send(cx, server, method, path, headers, body)
    if good:
        cx.check(res.status == 200, "it's stopped")
        cx.check_eq(server.stopped, 1, "stopped once")
        cx.reach("stopped")
    else:
        cx.check(res.status >= 400, "an error is told")
        cx.check_eq(server.stopped, 0, "isn't stopped by others")
        cx.reach("refused")


@case(indent=[False, True])
def queries(cx, indent):
    """The identifier, types and registries of a server."""
    server, telem, _ = remote(cx)
    own = cx.int("own", 0, 9)
    telem.app_id.set(own)
    end = "?indent=1" if indent else ""
    res = httpkit.send(cx, server, "GET", "/id" + end)
    cx.check(res.status == 200, "success")
    cx.check(res.body == str(own).encode("utf-8"), "the identifier")
    res = httpkit.send(cx, server, "GET", "/types" + end)
    got = json.loads(res.body.decode("utf-8"))
    cx.check_eq(
        got, json.loads(telem.type_registry.describe()), "the types"
    )
    cx.check_eq(b"\n" in res.body, indent, "indented if asked for")
    if cx.bool("another"):
        telem.add_channel("b", Primitive.INT16, 1.0)
    res = httpkit.send(cx, server, "GET", "/registries" + end)
    got = json.loads(res.body.decode("utf-8"))
    cx.check_eq(sorted(got), sorted(telem.registries), "all registries")
    for key, registry in telem.registries.items():
        cx.check_eq(got[key], json.loads(registry.describe()), "as it is")
    cx.check_eq(b"\n" in res.body, indent, "indented if asked for")


@case(method=["GET", "POST"], kind=["query", "form", "none", "data"])
def run_command(cx, method, kind):
    """Commands."""
    server, _, cmd = remote(cx)
    value = cx.text("value", 2, 0x61, 0x7A)
    text = "command=xy&arg=" + value + "&arg=2&other=z"
    want = {"command": "xy", "data": {"arg": value, "other": "z"}}
    headers = []
    body = b""
    path = "/command"
    if kind == "none":
        text = "other=x"
        want = None
    elif kind == "data":
        text = "command=xy&data=" + value
        want = {"command": "xy", "data": value}
    if kind == "form":
        body = text.encode("utf-8")
        headers = [
            ("Content-Length", str(len(body))),
            ("Content-Type", URLENC),
        ]
        if method == "GET":
            want = None
    else:
        path = path + "?" + text
    res = httpkit.send(cx, server, method, path, headers, body)
    if want is None:
        cx.check_eq(cmd.seen, [], "no command is run")
        cx.check(res.status == 400, "a bad request")
        return
    got = [{k: x[k] for k in ("command", "data")} for x in cmd.seen]
    cx.check_eq(got, [want], "exactly that command")
    cx.check_eq(res.status, 200 if cmd.good else 400, "its result")
    if cmd.good:
        cx.check(res.body == b"result of it", "its message")
