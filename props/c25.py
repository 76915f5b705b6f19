"""C25: HTTP responses."""

import html

from vsym.api import case

from props import httpkit

BOUNDS = {
    "quick": "contents of up to 2 characters, each any code point; what "
    "handlers return or raise, for GET, HEAD and POST",
    "thorough": "contents of up to 4 characters",
    "both": "the response is parsed byte by byte; the functions inherited "
    "from the standard library's request handler are encoded as well",
}
OUTSIDE = (
    "handlers that return something else than a truth value and a text; "
    "descriptions and extra headers that aren't single lines of latin-1; "
    "connections that fail while a response is sent; what TLS adds"
)
METHODS = ["GET", "HEAD", "POST"]


class Oops(Exception):
    """An error of a handler."""


def world(func, **kwargs):
    """A server with one handler."""
    mapper = httpkit.mapper()
    for method in ("GET", "POST"):
        mapper.add_handler(method, "a", func, "some handler", **kwargs)
    return httpkit.Server(mapper)


def has(cx, data, part):
    """Whether bytes contain a part."""
    size = len(part)
    return cx.any(
        [data[i : i + size] == part for i in range(len(data) - size + 1)]
    )


@case(
    method=METHODS,
    quick={"size": [0, 1, 2]},
    thorough={"size": [0, 1, 2, 3, 4]},
    _max_paths=50000,
)
def contents(cx, method, size):
    """Successful handlers, whatever they return."""
    content = cx.text("content", size)
    cx.assume(
        cx.all(
            [
                cx.neg(cx.all([ord(c) >= 0xD800, ord(c) <= 0xDFFF]))
                for c in content
            ]
        )
    )
    calls = []

    def func(request, data):
        calls.append((request.command, request.path, dict(data)))
        return True, content

    server = world(func)
    res = httpkit.send(cx, server, method, "/a")
    cx.check(res.status == 200, "success")
    cx.check_eq(calls, [(method, "/a", {})], "the handler runs once")
    body = content.encode("utf-8")
    cx.check_eq(
        res.headers.get("content-length"), str(len(body)), "announced length"
    )
    cx.check_eq(
        res.headers.get("content-type"),
        "application/json; charset=utf-8",
        "content type",
    )
    if method != "HEAD":
        cx.check(res.body == body, "exactly the content of the handler")
    # the next request of the same server is unaffected
    res = httpkit.send(cx, server, "GET", "/a")
    cx.check(res.body == body, "same content again")
    cx.reach("served")


@case(
    method=METHODS,
    quick={"size": [1, 2]},
    thorough={"size": [1, 2, 3]},
    _max_paths=50000,
)
def unencodable(cx, method, size):
    """Contents that can't be encoded are errors, not broken responses."""
    content = cx.text("content", size, 0xD801, 0xE0FF)
    cx.assume(
        cx.any(
            [cx.all([ord(c) >= 0xD800, ord(c) <= 0xDFFF]) for c in content]
        )
    )
    good = cx.bool("good")
    server = world(lambda request, data: (good, content))
    res = httpkit.send(cx, server, method, "/a")
    cx.check(400 <= res.status < 600, "an error is told")
    cx.reach("unencodable")


@case(
    method=METHODS,
    quick={"size": [0, 1, 2]},
    thorough={"size": [0, 1, 2, 3]},
    _max_paths=50000,
)
def failures(cx, method, size):
    """Handlers that fail, whatever they tell."""
    content = cx.text("content", size)
    cx.assume(
        cx.all(
            [
                cx.neg(cx.all([ord(c) >= 0xD800, ord(c) <= 0xDFFF]))
                for c in content
            ]
        )
    )
    server = world(lambda request, data: (False, content))
    res = httpkit.send(cx, server, method, "/a")
    cx.check(res.status == 400, "a failing handler is a bad request")
    if method != "HEAD":
        text = html.escape(content, quote=False).encode("utf-8")
        raw = content.encode("utf-8")
        cx.check(
            cx.any([has(cx, res.body, text), has(cx, res.body, raw)]),
            "the failure is told",
        )
    cx.reach("failed")


@case(
    method=METHODS,
    kind=["own", "key", "value", "os", "text", "assert", "unicode", "none"],
)
def raising(cx, method, kind):
    """Handlers that raise."""
    first = cx.bool("only the first time")
    later = cx.bool("after others")
    calls = []

    def func(_, __):
        calls.append(0)
        if later and len(calls) == 1 or first and len(calls) == 2:
            return True, "fine"
        if kind == "own":
            raise Oops()
        if kind == "key":
            return True, {}["some key"]
        if kind == "value":
            return True, str(int("x\r\ny: z"))
        if kind == "os":
            raise OSError(5, "\u20ac: no such thing")
        if kind == "text":
            raise Oops("<b>\r\nContent-Length: 3\r\n\r\nabc \U0001f600")
        if kind == "assert":
            assert not calls, "multi\nline"
        if kind == "unicode":
            return True, b"\xff".decode("utf-8")
        return None

    server = world(func)
    for _ in range(3):
        num = len(calls) + 1
        res = httpkit.send(cx, server, method, "/a")
        cx.check_eq(len(calls), num, "the handler runs once")
        if later and num == 1 or first and num == 2:
            cx.check(res.status == 200, "success")
        else:
            cx.check(500 <= res.status < 600, "an error of the server")
    cx.reach("raised")


@case(method=METHODS, what=["path", "method", "mapper", "query"])
def missing(cx, method, what):
    """Requests without a handler, whatever they ask for."""
    calls = []
    mapper = httpkit.mapper()
    add = "POST" if method != "POST" else "GET"
    mapper.add_handler(
        add, "a", lambda r, d: calls.append(0) or (True, "x"), "some"
    )
    server = httpkit.Server(mapper)
    path = "/a"
    if what == "path":
        path = "/b" + cx.text("path", 2, 0x21, 0x7F)
        for char in path[2:]:
            cx.assume(cx.neg(cx.any([char == "[", char == "]"])))
    elif what == "query":
        path = "/c?" + cx.text("query", 2, 0x21, 0x7E)
    elif what == "mapper":
        del server.mapper
    res = httpkit.send(cx, server, method, path)
    cx.check(400 <= res.status < 600, "an error is told")
    cx.check(calls == [], "no handler runs")
    if what != "mapper":
        cx.check(res.status == 404, "there's no such thing")
    cx.reach("missing")


@case(kind=["plain", "extra", "empty"])
def headers(cx, kind):
    """Headers of a handler's responses."""
    data = {"extra": {"X-Extra": "some value", "X-Num": 5}, "empty": {}}
    content = cx.text("content", 1, 0, 0x7FF)
    server = world(
        lambda r, d: (True, content),
        data=data.get(kind),
        response_type="text/plain",
        charset="utf-8",
    )
    for method in METHODS[:2]:
        res = httpkit.send(cx, server, method, "/a")
        cx.check(res.status == 200, "success")
        cx.check_eq(
            res.headers.get("content-type"),
            "text/plain; charset=utf-8",
            "content type",
        )
        cx.check_eq(
            res.headers.get("x-extra"),
            "some value" if kind == "extra" else None,
            "extra header",
        )
        cx.check_eq(
            res.headers.get("content-length"),
            str(len(content.encode("utf-8"))),
            "announced length",
        )


RAW = [
    (b"GET /a HTTP/1.0\r\n\r\n", 200),
    (b"GET //a HTTP/1.0\r\n\r\n", 200),
    (b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", 200),
    (b"HEAD /a HTTP/1.1\r\nHost: x\r\n\r\n", 200),
    (b"GET /b?x=1 HTTP/1.1\r\nHost: x\r\n\r\n", 404),
    (b"PUT /a HTTP/1.1\r\nHost: x\r\n\r\n", 501),
    (b"GET http://[ HTTP/1.0\r\n\r\n", 400),
    (b"GET /raise HTTP/1.0\r\n\r\n", 500),
    (b"GET /fail HTTP/1.0\r\n\r\n", 400),
    (b"BREW\r\n\r\n", 400),
    (b"GET /a HTTP/x\r\n\r\n", 400),
    (
        b"POST /a HTTP/1.0\r\nContent-Length: x\r\n"
        b"Content-Type: application/x-www-form-urlencoded\r\n\r\na=b",
        400,
    ),
    (
        b"POST /a HTTP/1.0\r\nContent-Length: 3\r\n"
        b"Content-Type: application/x-www-form-urlencoded\r\n\r\na=b",
        200,
    ),
    (
        b"POST /a HTTP/1.0\r\nContent-Length: 3\r\n"
        b"Content-Type: application/x-www-form-urlencoded\r\n\r\na=\xff",
        400,
    ),
    (
        b"POST /a HTTP/1.1\r\nHost: x\r\nContent-Length: 40\r\n"
        b"Content-Type: multipart/form-data; boundary=x\r\n\r\n"
        b"--x\r\nContent-Disposition: \xfe\r\n\r\n\r\n",
        400,
    ),
]


@case(num=list(range(len(RAW))))
def connections(cx, num):
    """Whole connections, from the request line on."""
    raw, status = RAW[num]
    content = cx.text("content", 2, 0x20, 0x20FF)
    mapper = httpkit.mapper()

    def fine(_, __):
        return True, content

    def fail(_, __):
        return False, "not " + content

    def oops(_, __):
        raise Oops("oops")

    for method in ("GET", "POST"):
        mapper.add_handler(method, "a", fine, "fine")
        mapper.add_handler(method, "fail", fail, "fails")
        mapper.add_handler(method, "raise", oops, "raises")
    server = httpkit.Server(mapper)
    data = httpkit.stream(cx, server, raw)
    if num in (9, 10):
        # (HTTP/0.9 has no headers)
        cx.check(len(data) > 0, "an error is told")
        return
    res = httpkit.parse(cx, data, raw.startswith(b"HEAD"))
    cx.check_eq(res.status, status, "status")
    if status == 200 and not raw.startswith(b"HEAD"):
        cx.check(res.body == content.encode("utf-8"), "exactly the content")
