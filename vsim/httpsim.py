"""HTTP in the simulation: real ASGI applications called without a socket, and a simulated network below urllib.

`asgi_call` drives one request through an application in the calling thread.  `Browser` keeps cookies.
`Net` is the network between the remote client (real urllib and http.client) and a server application.
"""
from __future__ import annotations

import http.client
import io
import urllib.parse
import urllib.request

from .kernel import US

REASON = http.client.responses


class Hung(Exception):
    """The application waits for something this driver does not provide."""


def drive(coro):
    """Runs a coroutine which never really waits."""
    try:
        while True:
            y = coro.send(None)
            if y is not None:
                raise Hung(repr(y))
    except StopIteration as e:
        return e.value
    finally:
        coro.close()


def asgi_call(app, method, target, headers=(), body=b"", client=("127.0.0.1", 50000), host="sim", chunks=None):
    """One request; returns (status, [(name, value)], body).  Exceptions of the application propagate."""
    path, _, query = target.partition("?")
    hs = [(b"host", host.encode())] + [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers]
    scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method,
             "scheme": "http", "path": urllib.parse.unquote(path), "raw_path": path.encode(), "query_string": query.encode(),
             "root_path": "", "headers": hs, "client": client, "server": (host, 80), "state": {}, "extensions": {}}
    parts = list(chunks) if chunks is not None else [body]
    out = {"status": None, "headers": [], "body": b"", "done": False}

    async def receive():
        if parts:
            b = parts.pop(0)
            return {"type": "http.request", "body": b, "more_body": bool(parts)}
        return {"type": "http.disconnect"}

    async def send(m):
        if m["type"] == "http.response.start":
            out["status"] = m["status"]
            out["headers"] = [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in m.get("headers", ())]
        elif m["type"] == "http.response.body":
            out["body"] += m.get("body", b"")
            out["done"] = not m.get("more_body", False)

    drive(app(scope, receive, send))
    return out["status"], out["headers"], out["body"]


class Browser:
    """Keeps cookies and shows pages; a server error is a status, as uvicorn would answer it."""

    def __init__(self, app, prefix="", headers=()):
        self.app, self.prefix, self.cookies, self.headers = app, prefix, {}, list(headers)
        self.error = None

    def request(self, method, path, form=None, headers=(), cookies=None, raw=None):
        body = b""
        hs = list(self.headers) + list(headers)
        if form is not None:
            body = urllib.parse.urlencode(form).encode()
            hs += [("content-type", "application/x-www-form-urlencoded")]
        if raw is not None:
            body = raw
        hs += [("content-length", str(len(body)))]
        jar = self.cookies if cookies is None else cookies
        if jar:
            hs += [("cookie", "; ".join(f"{k}={v}" for k, v in jar.items()))]
        self.error = None
        try:
            status, rh, rb = asgi_call(self.app, method, self.prefix + path, hs, body)
        except Exception as e:
            self.error = e
            return 500, [], repr(e).encode()
        for k, v in rh:
            if k == "set-cookie":
                c, _, attrs = v.partition(";")
                n, _, val = c.partition("=")
                if "max-age=0" in attrs.lower() or "1970" in attrs or val in ("", "null"):
                    jar.pop(n, None)
                else:
                    jar[n] = val
        return status, rh, rb

    def get(self, path, **k):
        return self.request("GET", path, **k)

    def post(self, path, form=None, **k):
        return self.request("POST", path, form if form is not None else {}, **k)


class Req:
    """One request as the network saw it."""
    __slots__ = ("method", "target", "headers", "body", "fault", "delivered", "done", "status", "answer", "s0", "s1", "t1",
                 "c0", "tc0", "thread", "intact")


class Net:
    """What is between urllib and the server; faults are chosen by `plan(method, target)` before each request.

    None: none;  refused: nobody listens;  reset: the connection breaks while sending;  lost: the request
    disappears;  late: it arrives when the client has given up;  cut: it arrives with half of its body;
    no_answer: the answer disappears;  slow: the answer comes after the timeout;  closed: the server closes
    without an answer;  short: the answer breaks off;  garbage, html, empty, list, nodata, redirect, badstatus:
    something in between answers instead (the request was not delivered);  eaten_*: same, but after delivery.
    """

    def __init__(self, sim, app, w, on_loop=None):
        self.sim, self.app, self.w, self.on_loop = sim, app, w, on_loop
        self.plan = None
        self.reqs = []
        self.by_thread = {}
        self.threads = []
        self.delay = (0,)

    def open(self, timeout):
        q = Req()
        q.delivered = q.done = False
        q.intact = True
        q.status = q.answer = q.s1 = q.t1 = q.thread = None
        q.fault = None
        q.s0 = self.w.seq()
        self.reqs.append(q)
        self.by_thread.setdefault(self.sim.cur.name, []).append(q)
        return Sock(self, q, timeout)


class Sock:
    def __init__(self, net, q, timeout):
        import threading
        self.net, self.q, self.timeout = net, q, timeout
        self.buf = b""
        self.sent = False
        self.out = b""
        self.eof = False
        self.ev = threading.Event()
        self.planned = False

    def sendall(self, data):
        q = self.q
        self.buf += bytes(data)
        if self.sent or b"\r\n\r\n" not in self.buf:
            return
        head, _, body = self.buf.partition(b"\r\n\r\n")
        lines = head.decode("latin-1").split("\r\n")
        q.method, q.target, _ = lines[0].split(" ")
        q.headers = [tuple(x.strip() for x in ln.split(":", 1)) for ln in lines[1:]]
        n = int(dict((k.lower(), v) for k, v in q.headers).get("content-length", 0))
        if not self.planned:
            self.planned = True
            q.fault = self.net.plan(q.method, q.target) if self.net.plan is not None else None
            if q.fault:
                self.net.sim.fault("net_" + q.fault)
                self.net.sim.note("NET", q.method, q.target, q.fault)
        if q.fault == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if len(body) < n:
            return
        q.body = body
        self.sent = True
        sim = self.net.sim
        if q.fault in ("lost",):
            return
        t = sim.spawn(self.serve, name=f"http#{len(self.net.threads)}")
        self.net.threads.append(t)

    def serve(self):
        net, q, sim = self.net, self.q, self.net.sim
        f = q.fault
        sim.sleep(sim.pick("net", net.delay))
        if f in FAKES:
            self.answer(FAKES[f], close=True)
            return
        if f == "late":
            sim.sleep(12 * US)
        chunks = None
        if f == "cut":
            q.intact = False
            chunks = [q.body[:len(q.body) // 2]]
        run = "/run" in q.target

        def call():
            me = sim.cur
            q.thread = me.name
            q.c0, q.tc0 = net.w.seq(), net.w.wall()
            q.delivered = True
            if run:
                net.w.manual_threads.add(me)
            try:
                return asgi_call(net.app, q.method, q.target, q.headers, q.body, chunks=chunks)
            except Exception as e:      # as a server would answer
                net.sim.note("server-error", repr(e))
                return 500, [("content-type", "text/plain")], b"Internal Server Error"
            finally:
                net.w.manual_threads.discard(me)
                q.s1, q.t1 = net.w.seq(), net.w.wall()
        st, hs, body = net.on_loop(call) if net.on_loop is not None else call()
        q.status, q.answer, q.done = st, body, True
        sim.sleep(sim.pick("net", net.delay))
        head = f"HTTP/1.1 {st} {REASON.get(st, '')}\r\n".encode() + b"".join(
            f"{k}: {v}\r\n".encode("latin-1") for k, v in hs if k not in ("connection",)) + b"connection: close\r\n\r\n"
        if f in ("no_answer", "late"):
            return
        if f == "slow":
            sim.sleep(11 * US)
        if f == "closed":
            self.answer(b"", close=True)
        elif f == "broken":
            self.answer(None, close=True)
        elif f == "short":
            self.answer((head + body)[:len(head) + max(0, len(body) - 3)], close=True)
        elif f == "stall":
            # the beginning of the answer, then nothing
            self.answer((head + body)[:len(head) + 2], close=False)
        elif f is not None and f.startswith("eaten_"):
            self.answer(FAKES[f[6:]], close=True)
        else:
            self.answer(head + body, close=True)

    def answer(self, b, close):
        if b is None:
            self.out = None
        else:
            self.out += b
        self.eof = close
        self.ev.set()

    def makefile(self, mode="rb", buffering=None):
        return io.BufferedReader(Reader(self))

    def settimeout(self, t):
        self.timeout = t

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    def shutdown(self, how):
        pass


class Reader(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        s = self.sock
        if not s.out and not s.eof or s.out is not None and s.eof is False and not s.out:
            if not s.ev.wait(s.timeout if isinstance(s.timeout, (int, float)) else None):
                raise TimeoutError("timed out")
        if s.out is None:
            raise ConnectionResetError(104, "Connection reset by peer")
        if not s.out:
            if s.eof:
                return 0
            s.net.sim.sleep(int(s.timeout * US))
            raise TimeoutError("timed out")
        n = min(len(b), len(s.out))
        b[:n] = s.out[:n]
        s.out = s.out[n:]
        return n


def _fake(status, ctype, body, extra=""):
    return (f"HTTP/1.1 {status} X\r\ncontent-type: {ctype}\r\ncontent-length: {len(body)}\r\nconnection: close\r\n{extra}\r\n"
            ).encode() + body


FAKES = {
    "garbage": _fake(200, "application/json", b'{"data": {"id'),
    "binary": _fake(200, "application/json", b"\x80\x81\xff\x00"),
    "html": _fake(502, "text/html", b"<html><h1>502 Bad Gateway</h1></html>"),
    "html_ok": _fake(200, "text/html", b"<html><form>login</form></html>"),
    "empty": _fake(200, "text/plain", b""),
    "empty_error": _fake(503, "text/plain", b""),
    "list": _fake(200, "application/json", b"[1, 2]"),
    "list_error": _fake(500, "application/json", b'["no"]'),
    "nodata": _fake(200, "application/json", b'{"status": "ok"}'),
    "wrong": _fake(200, "application/json", b'{"data": {"hello": "world"}}'),
    "text_data": _fake(200, "application/json", b'{"data": "abc"}'),
    "null_error": _fake(500, "application/json", b'{"error": null, "message": null}'),
    "other_error": _fake(403, "application/json", b'{"detail": "forbidden"}'),
    "badstatus": b"this is not http\r\n\r\n",
    "nothing": b"",
    "redirect": _fake(307, "text/plain", b"", extra="location: /elsewhere\r\n"),
}


class SimConnection(http.client.HTTPConnection):
    def connect(self):
        from . import kernel
        net = kernel.CURRENT.world.net
        s = net.open(self.timeout)
        if net.plan is not None:
            # a refused connection is decided before anything is sent
            f = net.plan(None, None)
            if f == "refused":
                s.q.fault = f
                net.sim.fault("net_refused")
                raise ConnectionRefusedError(111, "Connection refused")
        self.sock = s


class SimHTTPHandler(urllib.request.HTTPHandler):
    def http_open(self, req):
        return self.do_open(SimConnection, req)


def install():
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), SimHTTPHandler()))
