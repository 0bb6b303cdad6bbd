"""Tasks with every field set, their fingerprints, and backend faults; shared by the store properties."""
from __future__ import annotations

import datetime as dtm
import errno
from zoneinfo import ZoneInfo

from . import fs, taskfns
from .kernel import US
from .refmodel import from_us, to_us
from .world import *  # noqa
from .world import UTC, AsyncIOScheduler, InjectedError
from asyncz.tasks import Task
from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

BERLIN = ZoneInfo("Europe/Berlin")
IDS = ["t1", "t10", "t", "a b", "ünï", "x.task", "[ab]*?", "0", "T1", "l" * 200]


def store_exc():
    """What a store may raise when its backend fails."""
    import redis
    import pymongo.errors
    import sqlalchemy.exc
    return (InjectedError, redis.exceptions.RedisError, pymongo.errors.PyMongoError, sqlalchemy.exc.SQLAlchemyError,
            OSError)


def gen_next(sim, now, stream="w", wide=True):
    """A next run time (datetime or None)."""
    k = sim.wpick(stream, [(5, "near"), (2, "none"), (3, "same"), (1, "micro"), (1 if wide else 0, "old"),
                           (1 if wide else 0, "far"), (1, "zone")])
    sec = now // US
    if k == "none":
        return None
    if k == "same":
        return from_us((sec + 10) * US)
    if k == "micro":
        return from_us((sec + 10) * US + sim.pick(stream, [1, 2, 999_999, -1]))
    if k == "old":
        return sim.pick(stream, [dtm.datetime(1965, 3, 1, 12, tzinfo=UTC), dtm.datetime(1970, 1, 1, tzinfo=UTC),
                                 dtm.datetime(2001, 9, 9, 1, 46, 40, 5, tzinfo=UTC)])
    if k == "far":
        return dtm.datetime(2299, 12, 31, 23, 59, 59, tzinfo=UTC)
    d = from_us((sec + sim.rint(stream, -30, 30)) * US + sim.pick(stream, [0, 500_000, 123_456]))
    if k == "zone":
        return d.astimezone(BERLIN)
    return d


def gen_trigger_obj(sim, now, stream="w", depth=0):
    k = sim.wpick(stream, [(3, "interval"), (2, "date"), (2, "cron"), (0 if depth else 1, "and"), (0 if depth else 1, "or")])
    tz = sim.pick(stream, ["UTC", "Europe/Berlin", None])
    at = from_us(now + sim.rint(stream, -50, 50) * US)
    if k == "date":
        return DateTrigger(run_at=at, timezone=tz)
    if k == "interval":
        return IntervalTrigger(seconds=sim.rint(stream, 1, 90), start_at=at, timezone=tz,
                               end_at=sim.pick(stream, [None, at + dtm.timedelta(hours=2)]),
                               jitter=sim.pick(stream, [None, None, 4]))
    if k == "cron":
        return CronTrigger(second=sim.pick(stream, ["*/5", "0", "7,9"]), minute=sim.pick(stream, ["*", "3"]),
                           day_of_week=sim.pick(stream, [None, "mon-fri"]), timezone=tz,
                           jitter=sim.pick(stream, [None, None, 3]))
    parts = [gen_trigger_obj(sim, now, stream, 1) for _ in range(2)]
    return (AndTrigger if k == "and" else OrTrigger)(triggers=parts)


def trigger_print(t):
    """Everything that determines a trigger's future, as plain text."""
    if t is None:
        return None
    name = type(t).__name__
    if hasattr(t, "triggers"):
        return (name, t.jitter, tuple(trigger_print(x) for x in t.triggers))
    out = [name, getattr(t, "jitter", None)]
    for f in ("timezone", "start_at", "end_at", "interval", "run_at"):
        v = getattr(t, f, None)
        if isinstance(v, dtm.datetime):
            v = v.isoformat()
        out.append((f, str(v)))
    if hasattr(t, "fields"):
        out.append(tuple(str(f) for f in t.fields))
    return tuple(out)


def zone_name(d):
    return None if d is None else str(d.utcoffset())


def nxt_us(d):
    return None if d is None else to_us(d)


def fprint(t):
    """All fields a store has to keep."""
    fn = t.fn
    args = tuple(t.args)
    if hasattr(fn, "__self__") and not isinstance(fn.__self__, type):
        # a bound method is stored as the function with its owner as first argument
        args = (fn.__self__,) + args
        fn = fn.__func__
    return (t.id, t.name, getattr(fn, "__qualname__", repr(fn)), repr(args), repr(sorted(dict(t.kwargs).items())), t.executor,
            t.mistrigger_grace_time, t.coalesce, t.max_instances, nxt_us(t.next_run_time), zone_name(t.next_run_time),
            trigger_print(t.trigger))


def gen_task(sim, sched, tid, now, alias="default", stream="w", wide=True, simple=False):
    kw = {}
    o = taskfns.Obj(sim.pick(stream, [1, 2]))
    fn, args, kwargs = sim.pick(stream, [
        (taskfns.plain, (), {}),
        (taskfns.job, (tid,), {}),
        (taskfns.aplain, (1, "x"), {"a": [1, {"b": 2}]}),
        (o.method, (3,), {"k": o}),
        (taskfns.Obj.cmethod, (), {}),
        (taskfns.Obj.smethod, (b"\0\xff", None), {"ü": 1}),
    ])
    t = Task(id=tid, fn=fn, args=args, kwargs=kwargs, trigger=gen_trigger_obj(sim, now, stream), scheduler=sched,
             name=f"n{sim.fresh()}", executor=sim.pick(stream, ["default", "x"]), store_alias=alias,
             mistrigger_grace_time=sim.pick(stream, [None, 1, 2.5, 3600]), coalesce=bool(sim.pick(stream, [0, 1])),
             max_instances=sim.pick(stream, [1, 3, 100]), next_run_time=gen_next(sim, now, stream, wide))
    return t


class Backend:
    """One durable place for tasks, and the faults it can have."""

    def __init__(self, w, kind, where="a"):
        self.w, self.kind, self.where = w, kind, where
        self.kw = {"retries": w.sim.pick("w", [0, 2])} if kind == "redis" else {}

    def open(self, sched, alias="default", **kw):
        st = self.w.make_store(self.kind, where=self.where, tap=False, **{**self.kw, **kw})
        st.start(sched, alias)
        return st

    def set_fault(self, fn):
        """fn() -> None | 'before' | 'after', asked at every request to the backend."""
        w = self.w
        if self.kind == "redis":
            w.redis.fault_plan = None if fn is None else (lambda cmds: fn())
        elif self.kind == "mongo":
            w.mongo.fault_plan = None if fn is None else (lambda op: fn())
        elif self.kind == "sql":
            w.sql(self.where).fault_plan = None if fn is None else (lambda st: fn())
        elif self.kind == "file":
            def plan(op, path):
                f = fn()
                if f is None:
                    return None
                if op == "write":
                    return w.sim.pick("f", [errno.ENOSPC, ("torn", 50, errno.ENOSPC), ("short", 40), errno.EIO])
                if op in ("open_r", "open_w"):
                    return w.sim.pick("f", [errno.EMFILE, errno.EIO, errno.ENFILE])
                if op == "flock":
                    return errno.ENOLCK
                return errno.EIO
            w.fs.fault_plan = None if fn is None else plan

    # -- raw access for damage and secrecy checks
    def raw(self):
        """{task id: stored bytes}"""
        w = self.w
        if self.kind == "redis":
            return {k.decode(): bytes(v) for k, v in (w.redis.db(0).get(f"t.{self.where}".encode()) or {}).items()}
        if self.kind == "mongo":
            for key, coll in w.mongo.colls.items():
                if self.where in str(key):
                    return {k: bytes(d["state"]) for k, d in coll.items()}
            return {}
        if self.kind == "sql":
            return w.sql(self.where).raw_states()
        if self.kind == "file":
            d = w.fs.dir(f"{fs.ROOT}/{self.where}")
            if d is None:
                return {}
            return {n[:-5]: bytes(i.data) for n, i in d.entries.items() if n.endswith(".task") and not n.startswith(".")}
        raise AssertionError(self.kind)

    def put_raw(self, tid, data):
        w = self.w
        if self.kind == "redis":
            if f"t.{self.where}".encode() in w.redis.db(0):
                w.redis.db(0)[f"t.{self.where}".encode()][tid.encode()] = data
        elif self.kind == "mongo":
            for key, coll in w.mongo.colls.items():
                if self.where in str(key) and tid in coll:
                    coll[tid]["state"] = type(coll[tid]["state"])(data)
        elif self.kind == "sql":
            w.sql(self.where).put_state(tid, data)
        else:
            e = w.fs.dir(f"{fs.ROOT}/{self.where}").entries.get(f"{tid}.task")
            if e is not None:
                e.data[:] = data

    def forge(self, tid, data, src):
        """Adds the record tid next to the existing record src, as somebody with access to the backend could."""
        w = self.w
        if self.kind == "redis":
            d = w.redis.db(0)
            if f"t.{self.where}".encode() not in d:
                return      # deleted meanwhile
            d[f"t.{self.where}".encode()][tid.encode()] = data
            z = d.get(f"r.{self.where}".encode())
            if z is not None and src.encode() in z:
                z[tid.encode()] = z[src.encode()]
        elif self.kind == "mongo":
            for key, coll in w.mongo.colls.items():
                if self.where in str(key) and src in coll:
                    doc = dict(coll[src])
                    doc["_id"] = tid
                    doc["state"] = type(doc["state"])(data)
                    coll[tid] = doc
        elif self.kind == "sql":
            w.sql(self.where).forge(tid, data, src)
        else:
            w.fs.put_file(f"{fs.ROOT}/{self.where}/{tid}.task", data)

    def everything(self):
        """All durable bytes of the backend, whatever they mean: [(where, bytes)]."""
        w = self.w
        out = []

        def flat(v, path):
            if isinstance(v, dict):
                for k, x in v.items():
                    flat(k, path)
                    flat(x, path)
            elif isinstance(v, (list, tuple, set)):
                for x in v:
                    flat(x, path)
            elif isinstance(v, (bytes, bytearray)):
                out.append((path, bytes(v)))
            elif v is not None:
                out.append((path, str(v).encode()))
        if self.kind == "redis":
            for n, d in w.redis.dbs.items():
                flat(d, f"redis {n}")
        elif self.kind == "mongo":
            flat(w.mongo.colls, "mongo")
        elif self.kind == "sql":
            flat(w.sql(self.where).all_rows(), "sql")
        else:
            for p, i in w.fs.walk():
                out.append((p, p.encode()))
                if i.data:
                    out.append((p, bytes(i.data)))
        return out
