"""Process-wide seams: threading primitives, clocks, randomness, event loop.

Installed once, before asyncz (or anything that binds these names) is imported.  With no
active simulation every patched function behaves natively.
"""
from __future__ import annotations

import _signal
import _thread
import asyncio
import ctypes
import gc
import os
import random
import sys
import threading
import time
import traceback

from . import kernel
from .kernel import DONE, US, SimKilled

_real = {}
_get_ident = _thread.get_ident


# ---------------------------------------------------------------- locks
class SimLock:
    """threading.Lock replacement."""

    def __init__(self):
        self._l = _real_allocate()
        self._held = False
        self._owner = None
        self._waiters = []
        self._sim = None

    def _fresh(self, s):
        """A lock of a module outlives runs and simulated processes; its holders do not."""
        o = self._owner
        if self._sim is not s or (o is not None and o.state == kernel.DONE and not o.proc.alive):
            self._sim = s
            self._held = False
            self._owner = None
            self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = kernel.CURRENT
        if s is None:
            return self._l.acquire(blocking, timeout)
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        if _get_ident() != s.cur.ident:
            raise SimKilled()      # a destructor running while its ended thread is torn down
        if self._sim is not s:
            self._fresh(s)
        s.point("lock")
        if self._held:
            self._fresh(s)
        if not self._held:
            self._held = True
            self._owner = s.cur
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.mono + int(timeout * US + 0.999999)
        me = s.cur
        while self._held:
            left = None if end is None else end - s.mono
            if left is not None and left <= 0:
                return False
            self._waiters.append(me)
            try:
                s.block(left, "lock")
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._held = True
        self._owner = me
        return True

    def release(self):
        s = kernel.CURRENT
        if s is None:
            return self._l.release()
        if _get_ident() != s.cur.ident:
            return
        if not self._held:
            if s.ending or s.cur.killed is not None or not s.cur.proc.alive:
                return
            raise RuntimeError("release unlocked lock")
        self._held = False
        self._owner = None
        ws, self._waiters = self._waiters, []
        for w in ws:
            s.wake(w)
        if not s.ending and s.cur.killed is None and s.cur.proc.alive:
            s.point("unlock")

    def locked(self):
        if kernel.CURRENT is None:
            return self._l.locked()
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return f"<SimLock held={self._held}>"


class SimRLock:
    def __init__(self):
        self._l = _real["RLock"]()
        self._owner = None
        self._count = 0
        self._waiters = []
        self._sim = None

    def _fresh(self, s):
        o = self._owner
        if self._sim is not s or (o is not None and o.state == kernel.DONE and not o.proc.alive):
            self._sim = s
            self._owner = None
            self._count = 0
            self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = kernel.CURRENT
        if s is None:
            return self._l.acquire(blocking, timeout)
        me = s.cur
        if _get_ident() != me.ident:
            raise SimKilled()
        if self._sim is not s:
            self._fresh(s)
        if self._owner is me:
            self._count += 1
            return True
        s.point("rlock")
        if self._owner is not None:
            self._fresh(s)
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.mono + int(timeout * US + 0.999999)
        while self._owner is not None:
            left = None if end is None else end - s.mono
            if left is not None and left <= 0:
                return False
            self._waiters.append(me)
            try:
                s.block(left, "rlock")
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = kernel.CURRENT
        if s is None:
            return self._l.release()
        if _get_ident() != s.cur.ident:
            return
        if self._owner is not s.cur:
            if s.ending or s.cur.killed is not None or not s.cur.proc.alive:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count:
            return
        self._owner = None
        ws, self._waiters = self._waiters, []
        for w in ws:
            s.wake(w)
        if not s.ending and s.cur.killed is None and s.cur.proc.alive:
            s.point("runlock")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = kernel.CURRENT
        if s is None:
            return self._l._is_owned()
        return self._owner is s.cur

    def _recursion_count(self):
        s = kernel.CURRENT
        if s is None:
            return self._l._recursion_count()
        return self._count if self._owner is s.cur else 0

    def _release_save(self):
        s = kernel.CURRENT
        if s is None:
            return self._l._release_save()
        c, o = self._count, self._owner
        self._count = 1
        self.release()
        return (c, o)

    def _acquire_restore(self, state):
        s = kernel.CURRENT
        if s is None:
            return self._l._acquire_restore(state)
        self.acquire()
        self._count = state[0]

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return f"<SimRLock owner={self._owner.name if self._owner else None} count={self._count}>"


_real_allocate = _thread.allocate_lock
_RealThread = threading.Thread


class SimThread(_RealThread):
    """threading.Thread replacement; a simulated thread while a simulation is active."""

    _rec = None
    _sim_label = None
    _sim_proc = None
    _sim_hash = None

    def __hash__(self):
        # sets of threads (e.g. of a pool) must not be ordered by memory addresses
        if self._sim_hash is None:
            s = kernel.CURRENT
            self._sim_hash = super().__hash__() if s is None else s.fresh()
        return self._sim_hash

    def __eq__(self, other):
        return self is other

    def start(self):
        s = kernel.CURRENT
        if s is None:
            return super().start()
        if self._started.is_set() or self._rec is not None:
            raise RuntimeError("threads can only be started once")
        s.check_alive()
        n = s.fresh()
        rec = s.new_thread(self._sim_label or f"{self._sim_name()}#{n}", self._sim_proc or s.cur.proc)
        rec.py = self
        self._rec = rec
        self._sim = s

        def boot():
            _signal.pthread_sigmask(_signal.SIG_BLOCK, (_signal.SIGPROF,))   # the watchdog acts on the main thread
            rec.gate.acquire()
            ident = _thread.get_ident()
            rec.ident = ident
            self._ident = ident
            self._native_id = ident
            threading._active[ident] = self
            try:
                s.check_alive()
                self.run()
            except SimKilled:
                pass
            except SystemExit:
                pass
            except kernel.Violation as e:
                s.violate(e.kind, e.msg)
            except BaseException as e:  # noqa
                rec.exc = e
                rec.nopreempt += 1
                try:
                    if not s.ending and rec.killed is None and rec.proc.alive:
                        s.thread_errors.append(
                            (rec.name, type(e).__name__, "".join(traceback.format_exception(e)[-12:])))
                except SimKilled:
                    pass
                finally:
                    rec.nopreempt -= 1
            finally:
                threading._active.pop(ident, None)
                self._is_stopped = True
            s._exit_thread(rec)

        _thread.start_new_thread(boot, ())
        self._started._flag = True
        s.point("thread-start")

    def _sim_name(self):
        t = getattr(self, "_target", None)
        base = getattr(t, "__name__", None) or type(self).__name__
        return base.strip("_")

    def join(self, timeout=None):
        s = kernel.CURRENT
        if self._rec is None:
            return super().join(timeout)
        if s is None or self._sim is not s:
            return None
        if self._rec is s.cur:
            raise RuntimeError("cannot join current thread")
        s.join(self._rec, None if timeout is None else int(max(timeout, 0) * US))

    def is_alive(self):
        if self._rec is None:
            return super().is_alive()
        return self._rec.state != DONE


# ---------------------------------------------------------------- clocks
def _install_clocks():
    import datetime as dtm

    rt = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns",
                                        "monotonic_ns", "perf_counter_ns")}
    _real.update(rt)

    def v_time():
        s = kernel.CURRENT
        return rt["time"]() if s is None else s.wall() / US

    def v_time_ns():
        s = kernel.CURRENT
        return rt["time_ns"]() if s is None else s.wall() * 1000

    def v_mono():
        s = kernel.CURRENT
        return rt["monotonic"]() if s is None else s.mono / US

    def v_mono_ns():
        s = kernel.CURRENT
        return rt["monotonic_ns"]() if s is None else s.mono * 1000

    def v_perf():
        s = kernel.CURRENT
        return rt["perf_counter"]() if s is None else s.mono / US

    def v_perf_ns():
        s = kernel.CURRENT
        return rt["perf_counter_ns"]() if s is None else s.mono * 1000

    def v_sleep(sec):
        s = kernel.CURRENT
        if s is None:
            return rt["sleep"](sec)
        s.sleep(int(sec * US))

    time.time, time.time_ns = v_time, v_time_ns
    time.monotonic, time.monotonic_ns = v_mono, v_mono_ns
    time.perf_counter, time.perf_counter_ns = v_perf, v_perf_ns
    time.sleep = v_sleep
    threading._time = v_mono
    import queue
    queue.time = v_mono
    import concurrent.futures._base as cfb
    if hasattr(cfb, "time"):
        pass

    datetime = dtm.datetime
    EPOCH = datetime(1970, 1, 1, tzinfo=dtm.timezone.utc)
    timedelta = dtm.timedelta
    cd = gc.get_referents(datetime.__dict__)[0]
    o_now, o_utcnow = cd["now"], cd["utcnow"]
    pd = gc.get_referents(dtm.date.__dict__)[0]
    o_today = pd["today"]

    def _mk(cls, d):
        if cls is datetime:
            return d
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)

    def now(cls, tz=None):
        s = kernel.CURRENT
        if s is None:
            return o_now.__get__(None, cls)(tz)
        d = EPOCH + timedelta(microseconds=s.wall())
        if tz is None:
            return _mk(cls, d.astimezone().replace(tzinfo=None))
        return _mk(cls, d.astimezone(tz))

    def utcnow(cls):
        s = kernel.CURRENT
        if s is None:
            return o_utcnow.__get__(None, cls)()
        return _mk(cls, (EPOCH + timedelta(microseconds=s.wall())).replace(tzinfo=None))

    def today(cls):
        s = kernel.CURRENT
        if s is None:
            return o_today.__get__(None, cls)()
        if issubclass(cls, datetime):
            return now(cls)
        d = EPOCH + timedelta(microseconds=s.wall())
        d = d.astimezone()
        return cls(d.year, d.month, d.day)

    cd["now"] = classmethod(now)
    cd["utcnow"] = classmethod(utcnow)
    pd["today"] = classmethod(today)
    for t in (datetime, dtm.date):
        ctypes.pythonapi.PyType_Modified(ctypes.py_object(t))


# ---------------------------------------------------------------- randomness
def _install_random():
    r_urandom = os.urandom
    _real["urandom"] = r_urandom

    def urandom(n):
        s = kernel.CURRENT
        if s is None:
            return r_urandom(n)
        return s._rng("u").randbytes(n)

    os.urandom = urandom
    random._urandom = urandom  # SystemRandom / secrets
    import uuid

    def uuid4():
        return uuid.UUID(bytes=os.urandom(16), version=4)

    uuid.uuid4 = uuid4


# ---------------------------------------------------------------- event loop
class SimSelector:
    def __init__(self, loop):
        self.loop = loop
        self.woken = False
        self.waiter = None
        self.last_poll = -1
        self.polls = 0

    def wake(self):
        self.woken = True
        s = kernel.CURRENT
        if s is not None and self.waiter is not None:
            s.wake(self.waiter)

    def select(self, timeout=None):
        s = kernel.CURRENT
        if s is None:
            return []
        if self.woken:
            self.woken = False
            s.point("loop")
            return []
        if timeout is not None and timeout <= 0:
            s.point("loop")
            # a loop that keeps polling without blocking still consumes time
            if s.mono == self.last_poll:
                self.polls += 1
                if self.polls > 500:
                    self.polls = 0
                    s.block(20, "poll")
            else:
                self.last_poll = s.mono
                self.polls = 0
            return []
        us = None if timeout is None else -int(-timeout * US // 1)
        self.waiter = s.cur
        try:
            woken = s.block(us, "loop")
        finally:
            self.waiter = None
        if not woken and s.timer_late_p and s.chance("s", s.timer_late_p):
            s.fault("late_timer")
            s.block(s.stall_amount(), "late timer")
        self.woken = False
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = SimSelector(self)
        self._hseq = 0
        self.exceptions = []
        self.set_task_factory(_task_factory)
        self.set_exception_handler(_exc_handler)

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._selector.wake()
        s = kernel.CURRENT
        if s is not None and not s.ending and s.cur.killed is None and s.cur.proc.alive:
            s.point("loop-wake")

    def create_future(self):
        f = SimFuture(loop=self)
        self._hseq += 1
        f._h = self._hseq
        return f

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        if not self.is_closed():
            super().close()


class SimFuture(asyncio.Future):
    _h = 0

    def __hash__(self):
        return self._h


class SimTask(asyncio.Task):
    _h = 0

    def __hash__(self):
        return self._h


def _task_factory(loop, coro, **kw):
    loop._hseq += 1
    h = loop._hseq
    # the hash must exist before Task.__init__ registers the task in a WeakSet
    t = SimTask.__new__(SimTask)
    t._h = h
    SimTask.__init__(t, coro, loop=loop, **kw)
    return t


def _exc_handler(loop, ctx):
    e = ctx.get("exception")
    s = kernel.CURRENT
    if s is None or s.ending or isinstance(e, SimKilled):
        return
    loop.exceptions.append((ctx.get("message"), e))
    s.note("loop-exception", ctx.get("message"), type(e).__name__)


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        if kernel.CURRENT is None:
            return super().new_event_loop()
        return SimLoop()


# ---------------------------------------------------------------- line events
TOOL = 4
_prefixes = ()


def _line_cb(code, line):
    if not code.co_filename.startswith(_prefixes) or "/templates/" in code.co_filename:
        return sys.monitoring.DISABLE
    s = kernel.CURRENT
    if s is None:
        return None
    if s.line_mode:
        s.point("line")
    else:
        s.steps += 1
        c = s.cur
        if c.killed is not None or not c.proc.alive:
            s.check_alive()
        if s.steps > s.max_steps:
            s.hang()
    return None


def enable_lines(prefixes):
    global _prefixes
    _prefixes = tuple(prefixes)
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "vsim")
        m.register_callback(TOOL, m.events.LINE, _line_cb)
    m.set_events(TOOL, m.events.LINE)
    import atexit
    atexit.register(lambda: m.set_events(TOOL, 0))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import logging
    import queue
    import sys as _sys

    hook = _sys.unraisablehook

    def unraisable(u):
        # a thread of a killed process never finishes its cleanup
        if not isinstance(u.exc_value, kernel.SimKilled):
            hook(u)
    _sys.unraisablehook = unraisable

    _real["RLock"] = threading.RLock
    _real["Lock"] = threading.Lock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    threading.Thread = SimThread
    queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures
    import concurrent.futures._base
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimLock()
    cft.queue.SimpleQueue = queue._PySimpleQueue
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.createLock()
    os.cpu_count = lambda: 1
    _install_clocks()
    _install_random()
    asyncio.set_event_loop_policy(SimPolicy())
