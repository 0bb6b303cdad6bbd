"""A small redis server behind the connection-class seam of the real redis-py client."""
from __future__ import annotations

import os

import redis
from redis._parsers.encoders import Encoder
from redis.backoff import NoBackoff
from redis.exceptions import ConnectionError, ResponseError, TimeoutError
from redis.retry import Retry

from . import kernel


class Server:
    def __init__(self, sim):
        self.sim = sim
        self.dbs = {}
        self.watchers = {}     # (db, key) -> set of conns
        self.fault_plan = None  # callable(cmds) -> None | 'before' | 'after' | 'timeout_before' | 'timeout_after'
        self.down = False
        self.commands = 0
        self.latency = 0

    def db(self, n):
        return self.dbs.setdefault(n, {})

    def touch(self, db, key):
        for c in self.watchers.pop((db, key), ()):
            c.dirty = True

    def exec_one(self, conn, args):
        d = self.db(conn.db)
        name = args[0].upper()
        a = args[1:]
        self.commands += 1

        def h(key, create=False):
            v = d.get(key)
            if v is None:
                v = {}
                if create:
                    d[key] = v
            if not isinstance(v, dict) or isinstance(v, ZSet):
                raise ResponseError("WRONGTYPE Operation against a key holding the wrong kind of value")
            return v

        def z(key, create=False):
            v = d.get(key)
            if v is None:
                v = ZSet()
                if create:
                    d[key] = v
            if not isinstance(v, ZSet):
                raise ResponseError("WRONGTYPE Operation against a key holding the wrong kind of value")
            return v

        def clean(key):
            if key in d and not d[key]:
                del d[key]
            self.touch(conn.db, key)

        if name == b"PING":
            return b"PONG"
        if name == b"HEXISTS":
            return 1 if a[1] in h(a[0]) else 0
        if name == b"HGET":
            return h(a[0]).get(a[1])
        if name == b"HMGET":
            m = h(a[0])
            return [m.get(x) for x in a[1:]]
        if name == b"HGETALL":
            return dict(h(a[0]))
        if name == b"HKEYS":
            return list(h(a[0]))
        if name == b"HVALS":
            return list(h(a[0]).values())
        if name == b"HLEN":
            return len(h(a[0]))
        if name == b"HSET":
            m = h(a[0], True)
            n = 0
            for i in range(1, len(a), 2):
                n += a[i] not in m
                m[a[i]] = a[i + 1]
            clean(a[0])
            return n
        if name == b"HSETNX":
            m = h(a[0], True)
            if a[1] in m:
                return 0
            m[a[1]] = a[2]
            clean(a[0])
            return 1
        if name == b"HDEL":
            m = h(a[0])
            n = 0
            for x in a[1:]:
                n += m.pop(x, None) is not None
            if n:
                clean(a[0])
            return n
        if name == b"DEL":
            n = 0
            for x in a:
                if d.pop(x, None) is not None:
                    n += 1
                    self.touch(conn.db, x)
            return n
        if name == b"EXISTS":
            return sum(x in d for x in a)
        if name == b"ZADD":
            m = z(a[0], True)
            i = 1
            nx = xx = False
            while a[i].upper() in (b"NX", b"XX", b"CH", b"GT", b"LT"):
                nx |= a[i].upper() == b"NX"
                xx |= a[i].upper() == b"XX"
                i += 1
            n = 0
            for j in range(i, len(a), 2):
                mem = a[j + 1]
                if (nx and mem in m) or (xx and mem not in m):
                    continue
                n += mem not in m
                m[mem] = float(a[j])
            clean(a[0])
            return n
        if name == b"ZREM":
            m = z(a[0])
            n = 0
            for x in a[1:]:
                n += m.pop(x, None) is not None
            if n:
                clean(a[0])
            return n
        if name == b"ZCARD":
            return len(z(a[0]))
        if name == b"ZSCORE":
            return z(a[0]).get(a[1])
        if name in (b"ZRANGEBYSCORE", b"ZRANGE"):
            m = z(a[0])
            items = sorted(m.items(), key=lambda kv: (kv[1], kv[0]))
            opts = [x.upper() for x in a[3:]]
            if name == b"ZRANGEBYSCORE" or b"BYSCORE" in opts:
                lo, lox = _score(a[1])
                hi, hix = _score(a[2])
                items = [kv for kv in items if (kv[1] > lo or (not lox and kv[1] == lo))
                         and (kv[1] < hi or (not hix and kv[1] == hi))]
                if b"LIMIT" in opts:
                    k = opts.index(b"LIMIT")
                    off, cnt = int(a[3 + k + 1]), int(a[3 + k + 2])
                    items = items[off:] if cnt < 0 else items[off:off + cnt]
            else:
                lo, hi = int(a[1]), int(a[2])
                n = len(items)
                lo = lo + n if lo < 0 else lo
                hi = hi + n if hi < 0 else hi
                items = items[max(lo, 0):hi + 1]
            if b"WITHSCORES" in opts:
                return [[k, v] for k, v in items]
            return [k for k, _ in items]
        raise ResponseError(f"unknown command '{name.decode()}'")


def _score(b):
    ex = b.startswith(b"(")
    return float(b[1:] if ex else b), ex


class ZSet(dict):
    pass


class SimRedisConnection:
    """Implements redis-py's connection interface; one simulated TCP connection."""

    def __init__(self, server=None, db=0, sim_retries=0, **kw):
        self.server = server
        self.db = db
        self.pid = os.getpid()
        self.retry = Retry(NoBackoff(), sim_retries)
        self.encoder = Encoder("utf-8", "strict", False)
        self.protocol = 3
        self.credential_provider = None
        self.health_check_interval = 0
        self.next_health_check = 0
        self.socket_timeout = None
        self.himport_registry = kw.get("himport_registry")
        self.host, self.port = "sim", 6379
        self.handshake_metadata = {}
        self._himport_prepared = {}
        self._himport_reconciled_revision = 0
        self._sock = None
        self.replies = []
        self.queue = None
        self.dirty = False
        self.watched = []

    def get_protocol(self):
        return 3

    @property
    def is_connected(self):
        return self._sock is not None

    def connect(self):
        if self._sock is None:
            s = self.server.sim
            s.point("redis-connect")
            if self.server.down:
                raise ConnectionError("Error 111 connecting to sim:6379. Connection refused.")
            self._sock = object()
            self.replies, self.queue, self.dirty, self.watched = [], None, False, []

    def disconnect(self, *a, **k):
        self._sock = None
        self.replies, self.queue, self.dirty = [], None, False
        self._unwatch()

    def _unwatch(self):
        for k in self.watched:
            w = self.server.watchers.get(k)
            if w is not None:
                w.discard(self)
        self.watched = []

    def mark_for_reconnect(self):
        pass

    def should_reconnect(self):
        return False

    def reset_should_reconnect(self):
        pass

    def extract_connection_details(self):
        return "sim"

    def register_connect_callback(self, cb):
        pass

    def deregister_connect_callback(self, cb):
        pass

    def check_health(self):
        pass

    def re_auth(self):
        pass

    def set_re_auth_token(self, token):
        pass

    def can_read(self, timeout=0):
        return bool(self.replies)

    def pack_command(self, *args):
        return [self._enc(args)]

    def pack_commands(self, commands):
        return [self._enc(args) for args in commands]

    def _enc(self, args):
        first = args[0].encode() if isinstance(args[0], str) else args[0]
        parts = first.split() + list(args[1:])
        return [self.encoder.encode(x) for x in parts]

    def send_command(self, *args, **kw):
        self.send_packed_command(self.pack_command(*args))

    def send_packed_command(self, cmds, check_health=True):
        if self._sock is None:
            self.connect()
        srv = self.server
        s = srv.sim
        s.check_alive()
        s.point("redis-send")
        if srv.down:
            self.disconnect()
            raise ConnectionError("Connection reset by peer")
        f = srv.fault_plan(cmds) if srv.fault_plan is not None else None
        if f == "before":
            s.fault("redis_lost_request")
            self.disconnect()
            raise ConnectionError("Error 32 while writing to socket. Broken pipe.")
        if f == "timeout_before":
            s.fault("redis_timeout")
            self.disconnect()
            raise TimeoutError("Timeout writing to socket")
        if srv.latency:
            s.sleep(srv.latency)
        for c in cmds:
            self._apply(c)
        if f == "after":
            s.fault("redis_lost_reply")
            self.replies = [ConnectionError("Connection closed by server.")]
        if f == "timeout_after":
            s.fault("redis_timeout")
            self.replies = [TimeoutError("Timeout reading from socket")]

    def _apply(self, c):
        name = c[0].upper()
        srv = self.server
        if name == b"MULTI":
            self.queue = []
            self.replies.append(b"OK")
        elif name == b"WATCH":
            for k in c[1:]:
                srv.watchers.setdefault((self.db, k), set()).add(self)
                self.watched.append((self.db, k))
            self.replies.append(b"OK")
        elif name == b"UNWATCH":
            self._unwatch()
            self.dirty = False
            self.replies.append(b"OK")
        elif name == b"DISCARD":
            self.queue = None
            self._unwatch()
            self.replies.append(b"OK")
        elif name == b"EXEC":
            q, self.queue = self.queue, None
            self._unwatch()
            if self.dirty:
                self.dirty = False
                self.replies.append(None)
                return
            out = []
            for x in q:
                try:
                    out.append(srv.exec_one(self, x))
                except ResponseError as e:
                    out.append(e)
            self.dirty = False
            self.replies.append(out)
        elif self.queue is not None:
            self.queue.append(c)
            self.replies.append(b"QUEUED")
        else:
            try:
                self.replies.append(srv.exec_one(self, c))
            except ResponseError as e:
                self.replies.append(e)

    def read_response(self, disable_decoding=False, timeout=None, *, disconnect_on_error=True, push_request=False,
                      **kw):
        s = self.server.sim
        s.point("redis-recv")
        if not self.replies:
            self.disconnect()
            raise ConnectionError("Connection closed by server.")
        r = self.replies.pop(0)
        if isinstance(r, (ConnectionError, TimeoutError)):
            self.disconnect()
            raise r
        if isinstance(r, ResponseError):
            raise r
        return r


def make_pool(server, db=0, retries=0):
    return redis.ConnectionPool(connection_class=SimRedisConnection, server=server, db=db, sim_retries=retries,
                                protocol=3)
