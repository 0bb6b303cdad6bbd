"""The simulated deployment: schedulers, stores, executors, clients, and the recorded history."""
from __future__ import annotations

import asyncio
import datetime as dtm
import gc

from . import boot, fs, kernel, mongosim, redisim, refmodel, sqlsim, taskfns
from .kernel import US, Violation
from .patches import SimLoop, SimThread
from .refmodel import RCron, RDate, RInterval, from_us, to_us

boot.boot()

import sqlalchemy  # noqa
from asyncz.events import constants as EV  # noqa
from asyncz.events.base import SchedulerEvent, TaskEvent, TaskExecutionEvent, TaskSubmissionEvent  # noqa
from asyncz.exceptions import (ConflictIdError, MaximumInstancesError, SchedulerAlreadyRunningError,  # noqa
                               SchedulerNotRunningError, TaskLookupError)
from asyncz.executors.asyncio import AsyncIOExecutor  # noqa
from asyncz.executors.debug import DebugExecutor  # noqa
from asyncz.executors.pool import ThreadPoolExecutor  # noqa
from asyncz.executors.process_pool import ProcessPoolExecutor  # noqa
from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler  # noqa
from asyncz.stores.file import FileStore  # noqa
from asyncz.stores.memory import MemoryStore  # noqa
from asyncz.stores.mongo import MongoDBStore  # noqa
from asyncz.stores.redis import RedisStore  # noqa
from asyncz.stores.sqlalchemy import SQLAlchemyStore  # noqa
from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger  # noqa

UTC = dtm.timezone.utc


class InjectedError(Exception):
    """A fault raised by the simulated environment."""


class Call:
    __slots__ = ("n", "tag", "args", "kwargs", "t0", "t1", "s0", "s1", "duration", "outcome", "thread", "value",
                 "ended", "proc", "wound")


class Sub:
    """One hand-over of run times to an executor (a call of send_task)."""
    __slots__ = ("n", "ex", "task_id", "store", "times", "t0", "t1", "s0", "s1", "result", "thread", "task", "proc",
                 "sched", "manual", "pass_now", "max_instances", "task_grace")

    def __repr__(self):
        return f"<sub {self.n} {self.task_id} {self.times} {self.result}>"


class Ev:
    __slots__ = ("n", "seq", "t", "code", "event", "thread", "task_id", "times", "sched")

    def __repr__(self):
        return f"<ev {EVNAME.get(self.code, self.code)} {self.task_id} {self.times} t={self.t}>"


EVNAME = {v: k for k, v in vars(EV).items() if isinstance(v, int) and k.isupper() and v and not (v & (v - 1))}
TERMINAL = (EV.TASK_EXECUTED, EV.TASK_ERROR, EV.TASK_MISSED)


class Plan:
    """How a tag's function behaves."""

    def __init__(self, durations=(0,), outcomes=((1, "ret"),)):
        self.durations = durations
        self.outcomes = outcomes
        self.hook = None


class World:
    def __init__(self, sim, pid):
        self.sim = sim
        self.pid = pid
        taskfns.WORLD = self
        sim.world = self
        self.fs = fs.SimFS(sim)
        self.calls = []
        self.subs = []
        self.events = []
        self.plans = {}
        self.default_plan = Plan()
        self.redis = redisim.Server(sim)
        self.mongo = mongosim.Server(sim)
        self._sql = {}
        self.hosts = []
        self.store_fault = None   # callable(alias, op, task_id) -> None | 'before' | 'after'
        self.exec_fault = None    # callable(alias, task_id) -> bool
        self.store_ops = []
        self.store_errors = []
        self.record_store_ops = False
        self.due_log = []         # (seq, alias, proc) of every due query, begin
        self.last_due = {}
        self.manual_threads = set()
        self.nloops = []

    # ---------------------------------------------------------------- small helpers
    def wall(self):
        return self.sim.wall()

    def seq(self):
        return self.sim.next_seq()

    def fail(self, kind, msg):
        raise Violation(f"{self.pid}.{kind}", msg)

    def viol(self, kind, msg):
        self.sim.violate(f"{self.pid}.{kind}", msg)

    def rel(self, us):
        """Readable time relative to the start of the run."""
        if us is None:
            return None
        return f"{(us - (self.sim.wall_off + 1000 * US)) / US:.6f}"

    # ---------------------------------------------------------------- task functions
    def call_begin(self, tag, args, kwargs):
        c = Call()
        s = self.sim
        c.n = len(self.calls)
        c.tag, c.args, c.kwargs = tag, args, kwargs
        c.t0, c.s0 = s.wall(), s.next_seq()
        c.t1 = c.s1 = None
        c.thread = s.cur.name
        c.proc = s.cur.proc
        p = self.plans.get(tag, self.default_plan)
        c.duration = s.pick("x", p.durations)
        c.outcome = s.wpick("x", p.outcomes)
        c.ended = c.wound = False
        c.value = None
        self.calls.append(c)
        s.note("call", c.n, tag, c.duration, c.outcome)
        return c

    def call_hook(self, c):
        h = self.plans.get(c.tag, self.default_plan).hook
        # a function in a pool process has no access to the scheduler
        if h is not None and not c.thread.startswith("pworker"):
            h(c)

    def call_finish(self, c):
        if c.outcome == "exc":
            c.value = taskfns.JobError(c.n)
            raise c.value
        if c.outcome == "base":
            raise taskfns.JobBaseError(c.n)
        if c.outcome == "cancel":
            raise asyncio.CancelledError()
        if c.outcome == "exit":
            raise SystemExit(c.n)
        if c.outcome == "none":
            return None
        c.value = f"r{c.n}"
        return c.value

    def call_end(self, c):
        if not c.ended:
            c.t1, c.s1 = self.sim.wall(), self.sim.next_seq()
            c.ended = True
        self.sim.note("callend", c.n)

    # ---------------------------------------------------------------- events
    def recorder(self, sched_name="s"):
        def record(event):
            e = Ev()
            s = self.sim
            e.n = len(self.events)
            e.seq, e.t = s.next_seq(), s.wall()
            e.code, e.event = event.code, event
            e.thread = s.cur.name
            e.task_id = getattr(event, "task_id", None)
            e.sched = sched_name
            ts = getattr(event, "scheduled_run_times", None)
            if ts is None:
                t = getattr(event, "scheduled_run_time", None)
                ts = [t] if t is not None else None
            e.times = [to_us(x) for x in ts] if ts is not None else None
            self.events.append(e)
            s.note("event", EVNAME.get(e.code, e.code), e.task_id or getattr(event, "alias", None),
                   [self.rel(x) for x in e.times] if e.times else "")
        return record

    # ---------------------------------------------------------------- stores
    def sql(self, name="db"):
        if name not in self._sql:
            self._sql[name] = sqlsim.Database(self.sim)
        return self._sql[name]

    def close(self):
        for d in self._sql.values():
            d.close()

    def make_store(self, kind, where="a", tap=True, **kw):
        """A store object on the durable data named by (kind, where)."""
        if kind == "memory":
            cls, args = MemoryStore, {}
        elif kind == "file":
            d = f"{fs.ROOT}/{where}"
            cls, args = FileStore, dict(directory=d)
        elif kind == "redis":
            cls = RedisStore
            args = dict(connection_pool=redisim.make_pool(self.redis, retries=kw.pop("retries", 0)),
                        tasks_key=f"t.{where}", run_times_key=f"r.{where}")
        elif kind == "mongo":
            cls, args = MongoDBStore, dict(client=mongosim.Client(self.mongo), collection=where)
        elif kind == "sql":
            cls, args = SQLAlchemyStore, dict(database=self.sql(where).engine())
        else:
            raise AssertionError(kind)
        args.update(kw)
        if tap:
            cls = tapped_store(cls)
        return cls(**args)

    def make_executor(self, kind, **kw):
        cls = {"asyncio": AsyncIOExecutor, "thread": ThreadPoolExecutor, "debug": DebugExecutor,
               "process": ProcessPoolExecutor}[kind]
        return tapped_executor(cls)(**kw)


_tapped = {}


def tapped_store(cls):
    k = ("s", cls)
    if k in _tapped:
        return _tapped[k]

    def op(name, is_task_arg):
        base = getattr(cls, name)

        def method(self, *a, **k):
            w = taskfns.WORLD
            s = w.sim
            alias = getattr(self, "alias", None)
            tid = None
            if a:
                tid = a[0].id if is_task_arg else (a[0] if isinstance(a[0], str) else None)
            if name == "get_due_tasks" and a:
                w.last_due[alias] = to_us(a[0])
                w.due_log.append((s.next_seq(), alias, s.cur.proc))
            if s.style:
                s.point("store-op")
            f = w.store_fault(alias, name, tid) if w.store_fault is not None else None
            if f == "before":
                s.fault(f"store_{name}_error")
                s.note("FAULT", alias, name, tid, "before")
                w.store_errors.append((s.next_seq(), alias, name, tid, "before"))
                raise InjectedError(f"{name} failed")
            try:
                r = base(self, *a, **k)
            except (ConflictIdError, TaskLookupError):
                raise
            except Exception:
                w.store_errors.append((s.next_seq(), alias, name, tid, "unknown"))
                raise
            if f == "after":
                s.fault(f"store_{name}_lost_ack")
                s.note("FAULT", alias, name, tid, "after")
                w.store_errors.append((s.next_seq(), alias, name, tid, "after"))
                raise InjectedError(f"{name} failed after it took effect")
            if w.record_store_ops:
                w.store_ops.append((s.next_seq(), alias, name, tid))
            return r
        method.__name__ = name
        return method

    ns = {n: op(n, n in ("add_task", "update_task")) for n in
          ("get_due_tasks", "get_next_run_time", "get_all_tasks", "lookup_task", "add_task", "update_task",
           "delete_task", "remove_all_tasks")}
    ns["__module__"] = cls.__module__
    sub = type(cls.__name__, (cls,), ns)
    _tapped[k] = sub
    return sub


def tapped_executor(cls):
    k = ("e", cls)
    if k in _tapped:
        return _tapped[k]

    def send_task(self, task, run_times, *a, **kw):
        w = taskfns.WORLD
        s = w.sim
        sub = Sub()
        sub.n = len(w.subs)
        sub.ex = getattr(self, "logger_name", "?").rsplit(".", 1)[-1]
        sub.task_id, sub.store, sub.task = task.id, task.store_alias, task
        sub.times = [to_us(x) for x in run_times]
        sub.t0, sub.s0 = s.wall(), s.next_seq()
        sub.t1 = sub.s1 = None
        sub.result = "open"
        sub.thread = s.cur.name
        sub.proc = s.cur.proc
        sub.sched = getattr(self.scheduler, "identity", None)
        sub.manual = s.cur in w.manual_threads
        sub.pass_now = w.last_due.get(task.store_alias)
        sub.max_instances = task.max_instances
        sub.task_grace = task.mistrigger_grace_time
        w.subs.append(sub)
        s.note("send", sub.n, sub.ex, sub.task_id, [w.rel(x) for x in sub.times])
        try:
            if w.exec_fault is not None and w.exec_fault(sub.ex, task.id):
                s.fault("executor_send_error")
                raise InjectedError("executor refused")
            r = super(sub_cls, self).send_task(task, run_times, *a, **kw)
        except MaximumInstancesError:
            sub.result = "max"
            raise
        except kernel.SimKilled:
            sub.result = "killed"
            raise
        except BaseException as e:
            sub.result = f"error:{type(e).__name__}"
            raise
        else:
            sub.result = "ok"
            return r
        finally:
            sub.t1, sub.s1 = s.wall(), s.next_seq()
            s.note("sent", sub.n, sub.result)

    def start(self, *a, **kw):
        r = super(sub_cls, self).start(*a, **kw)
        for n, v in list(vars(self).items()):
            if type(v) is set and not v:      # a set of futures is ordered by memory addresses
                setattr(self, n, OrderedSet())
        return r

    sub_cls = type(cls.__name__, (cls,), {"send_task": send_task, "start": start, "__module__": cls.__module__})
    _tapped[k] = sub_cls
    return sub_cls


class OrderedSet(set):
    """A set which is iterated in the order of insertion."""

    def __init__(self, items=()):
        super().__init__()
        self._o = {}
        for x in items:
            self.add(x)

    def add(self, x):
        super().add(x)
        self._o.setdefault(x)

    def discard(self, x):
        super().discard(x)
        self._o.pop(x, None)

    def remove(self, x):
        super().remove(x)
        del self._o[x]

    def pop(self):
        x = next(iter(self._o))
        self.remove(x)
        return x

    def clear(self):
        super().clear()
        self._o.clear()

    def __iter__(self):
        return iter(self._o)

    def copy(self):
        return OrderedSet(self._o)


# -------------------------------------------------------------------- hosting
class Host:
    """Runs one scheduler the way an application would.

    thread: AsyncIOScheduler with its own loop thread;  loop: AsyncIOScheduler started inside a
    running application loop;  native: NativeAsyncIOScheduler on an application loop.
    """

    def __init__(self, w, mode, name="s", proc=None, stores=None, executors=None, timezone="UTC", **kw):
        self.w, self.mode, self.name = w, mode, name
        self.sim = w.sim
        self.proc = proc or w.sim.default_proc
        if mode == "native_iso":      # native scheduler that keeps a loop thread of its own
            self.mode = mode = "native"
            kw["isolated_event_loop"] = True
        self.isolated = bool(kw.get("isolated_event_loop"))
        cls = NativeAsyncIOScheduler if mode == "native" else AsyncIOScheduler
        kw.setdefault("identity", name)
        self.loop = None
        self.loop_thread = None
        self.sched = cls(timezone=timezone, stores=stores or {}, executors=executors or {}, **kw)
        self.rec = w.recorder(name)
        self.sched.add_listener(self.rec)
        w.hosts.append(self)

    # -- application loop
    def ensure_loop(self):
        if self.loop is None and self.mode != "thread":
            self.loop = SimLoop()
            t = SimThread(target=self._loop_main, daemon=True)
            t._sim_label = f"loop-{self.name}"
            t._sim_proc = self.proc
            self.loop_thread = t
            t.start()

    def _loop_main(self):
        asyncio.set_event_loop(self.loop)
        self.loop.run_forever()

    def on_loop(self, coro, timeout=None):
        self.ensure_loop()
        f = asyncio.run_coroutine_threadsafe(coro, self.loop)
        return f.result(timeout)

    def start(self, paused=False):
        if self.mode == "thread":
            return self.sched.start(paused) if paused else self.sched.start()
        if self.mode == "native":
            return self.on_loop(self.sched.start(paused))

        async def go():
            return self.sched.start(paused)
        return self.on_loop(go())

    def shutdown(self, wait=True, settle=True, limit_s=600):
        """Requests shutdown; with settle, returns once the scheduler reports itself stopped."""
        if self.mode == "native":
            r = self.on_loop(self.sched.shutdown(wait))
        elif self.mode == "loop":
            async def go():
                return self.sched.shutdown(wait)
            r = self.on_loop(go())
        else:
            r = self.sched.shutdown(wait)
        if settle and not r:
            self.settle(limit_s)
        return r

    def run_task(self, *a, **kw):
        """run_task, with its submission marked as manual in the record."""
        me = self.sim.cur
        self.w.manual_threads.add(me)
        try:
            return self.sched.run_task(*a, **kw)
        finally:
            self.w.manual_threads.discard(me)

    def settle(self, limit_s=600):
        end = self.sim.mono + limit_s * US
        while self.sched.running:
            if self.sim.mono > end:
                return False
            self.sim.sleep(20_000)
        return True

    def in_loop(self, fn):
        """Runs fn on the loop the scheduler uses (like a handler of the application)."""
        async def go():
            return fn()
        if self.mode == "thread":
            lp = self.sched.event_loop
            return asyncio.run_coroutine_threadsafe(go(), lp).result()
        return self.on_loop(go())

    def stop_app(self):
        if self.loop is not None:
            self.loop.call_soon_threadsafe(self.loop.stop)
            self.loop_thread.join()

    def new_app(self):
        """The application's loop ends (like asyncio.run returning); the next call gets a new one."""
        if self.loop is not None:
            self.stop_app()
            self.loop.close()
            self.loop = None


# -------------------------------------------------------------------- generation
def gen_trigger(sim, now, kinds=("date", "interval", "cron"), horizon=120, tz="UTC", past=True):
    """(asyncz trigger, reference trigger, description). now: wall µs."""
    kind = sim.pick("w", kinds)
    sec = now // US
    if kind == "date":
        off = sim.pick("w", [3, 1, 7, 20, 45, -5, 0]) if past else sim.pick("w", [3, 1, 7, 20, 45])
        frac = sim.pick("w", [0, 250_000, 999_999, 1])
        at = (sec + off) * US + frac
        return DateTrigger(run_at=from_us(at), timezone=tz), RDate(at), f"date@{off}"
    if kind == "interval":
        step = sim.pick("w", [5, 1, 2, 3, 7, 10, 30, 60])
        off = sim.pick("w", [2, 0, 1, 5, 11, -7, -100]) if past else sim.pick("w", [2, 1, 5, 11])
        frac = sim.pick("w", [0, 500_000, 333_333])
        start = (sec + off) * US + frac
        end = None
        e = sim.pick("w", [None, None, 12, 40])
        if e is not None:
            end = (sec + off + e) * US + sim.pick("w", [0, frac])
        t = IntervalTrigger(seconds=step, start_at=from_us(start), end_at=from_us(end) if end else None, timezone=tz)
        return t, RInterval(start, step * US, end), f"every{step}+{off}" + (f"..{e}" if e else "")
    if kind == "cron":
        shape = sim.pick("w", ["*/5", "*/2", "0", "10,40", "*"])
        secs = {"*/5": range(0, 60, 5), "*/2": range(0, 60, 2), "0": [0], "10,40": [10, 40], "*": range(60)}[shape]
        end = None
        e = sim.pick("w", [None, None, None, 20])
        if e is not None:
            end = (sec + e) * US
        t = CronTrigger(second=shape, timezone=tz, end_at=from_us(end) if end else None)
        return t, RCron(list(secs), end=end), f"cron {shape}" + (f"..{e}" if e else "")
    raise AssertionError(kind)


def style_for_run(sim, calm=30, sync=25, line=45, stalls=True, stall_max_us=3 * US, lo=6, hi=22):
    """Pick how aggressively this run is interleaved."""
    st = sim.wpick("w", [(calm, 0), (sync, 1), (line, 2)])
    if st == 0:
        sim.configure_preemption(0)
    elif st == 1:
        sim.configure_preemption(1, sim.pick("w", [0, 2, 4]), sim.pick("w", [10, 14, 18]),
                                 stalls=stalls, stall_max_us=stall_max_us)
    else:
        a, b = sim.pick("w", [(0, 12), (4, 16), (8, 20), (10, 24), (12, 28)])
        sim.configure_preemption(2, a, b, stalls=stalls, stall_max_us=stall_max_us)
    return st


def calm_down(sim):
    sim.configure_preemption(0)
    sim.timer_late_p = 0
