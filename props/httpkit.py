"""Requests without sockets."""

import email.message
import types
import urllib.parse

from vtelem.classes import http_request_mapper
from vtelem.classes.http_request_mapper import MapperAwareRequestHandler


class Reader:
    """What a client sent."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, size=-1):
        """Read a number of bytes."""
        end = len(self.data) if size < 0 else self.pos + size
        out = self.data[self.pos : end]
        self.pos += len(out)
        return out

    def readline(self, limit=-1):
        """Read a line."""
        idx = self.data.find(b"\n", self.pos)
        size = len(self.data) - self.pos if idx < 0 else idx + 1 - self.pos
        return self.read(size if limit < 0 else min(size, limit))


class Writer:
    """What's sent to a client."""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, data):
        """Send bytes."""
        self.parts.append(bytes(data))
        return len(data)

    def flush(self):
        """Nothing is kept."""

    def close(self):
        """Nothing is kept."""

    def data(self):
        """Everything that's been sent."""
        return b"".join(self.parts)


class Response:
    """A parsed response."""

    def __init__(self, status, headers, body):
        self.status = status
        self.headers = headers
        self.body = body


def handler_class(cx, base=MapperAwareRequestHandler):
    """The handler whose inherited functions are encoded as well."""
    body = {}
    if cx.symbolic:
        copy = cx.stdlib("http.server").BaseHTTPRequestHandler
        for name, item in vars(copy).items():
            if isinstance(item, types.FunctionType):
                for cls in base.__mro__:
                    if name in vars(cls):
                        if cls.__module__ == "http.server":
                            body[name] = item
                        break
    body["date_time_string"] = lambda self, timestamp=None: "now"
    body["log_date_time_string"] = lambda self: "now"
    return type("Handler", (base,), body)


def parse(cx, data, head):
    """Split a response, which must be well-formed."""
    idx = data.find(b"\r\n\r\n")
    cx.check(idx > 0, "a response has an end of its headers")
    top = data[:idx].decode("latin-1")
    body = data[idx + 4 :]
    lines = top.split("\r\n")
    words = lines[0].split(" ", 2)
    cx.check(
        len(words) == 3 and words[0] in ("HTTP/1.0", "HTTP/1.1"),
        "a response starts with a status line",
    )
    cx.check(
        cx.all([x.isdigit() for x in [words[1]]]) and len(words[1]) == 3,
        "a status is three digits",
    )
    status = int(words[1])
    for line in lines:
        cx.check(
            line.find("\n") < 0 and line.find("\r") < 0, "lines end properly"
        )
    headers = {}
    for line in lines[1:]:
        name, sep, value = line.partition(":")
        cx.check(
            sep == ":" and name != "" and name.find(" ") < 0,
            "a header is a name and a value",
        )
        key = str(name).lower()
        cx.check(
            key not in headers or key not in ("content-length",),
            "one content length",
        )
        headers[key] = value.strip()
    if head:
        cx.check(len(body) == 0, "no body for HEAD")
    else:
        length = headers.get("content-length")
        cx.check(length is not None, "the content length is announced")
        cx.check(
            length is not None and length == str(len(body)),
            "the body is as long as announced",
        )
    return Response(status, headers, body)


def send(cx, server, method, path, headers=(), body=b"", base=None):
    """Have a handler process a parsed request: its response."""
    cls = handler_class(cx, base or MapperAwareRequestHandler)
    handler = cls.__new__(cls)
    handler.server = server
    handler.client_address = ("127.0.0.1", 1234)
    handler.command = method
    handler.path = path
    handler.requestline = method + " ? HTTP/1.0"
    handler.request_version = "HTTP/1.0"
    handler.close_connection = True
    handler.headers = email.message.Message()
    for name, value in headers:
        handler.headers[name] = value
    handler.rfile = Reader(body)
    handler.wfile = Writer()
    func = getattr(handler, "do_" + method)
    ok, _ = cx.catch(func)
    cx.check(ok, "a request never breaks its connection")
    return parse(cx, handler.wfile.data(), method == "HEAD")


def stream(cx, server, data, base=None):
    """Have a handler process raw requests of a connection: what it sent."""
    cls = handler_class(cx, base or MapperAwareRequestHandler)
    handler = cls.__new__(cls)
    handler.server = server
    handler.client_address = ("127.0.0.1", 1234)
    handler.rfile = Reader(data)
    handler.wfile = Writer()
    handler.close_connection = True
    ok, _ = cx.catch(handler.handle)
    cx.check(ok, "a request never breaks its connection")
    return handler.wfile.data()


class Server:
    """A server that has a mapper."""

    def __init__(self, mapper):
        self.mapper = mapper


def mapper():
    """A new mapper."""
    return http_request_mapper.HttpRequestMapper()


def quote(text):
    """Encode text for a query."""
    return urllib.parse.quote(text, safe="")
