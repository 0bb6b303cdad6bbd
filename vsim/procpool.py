"""Stand-in for concurrent.futures.ProcessPoolExecutor and multiprocessing.Pipe.

Workers are simulated threads; arguments and results cross a pickle round trip as they would
between processes; a worker can die (BrokenProcessPool) at a seeded point.
"""
from __future__ import annotations

import collections
import concurrent.futures
import pickle
import queue
import threading
from concurrent.futures.process import BrokenProcessPool

from . import kernel

_Real = concurrent.futures.ProcessPoolExecutor


class SimProcessPool(concurrent.futures.Executor):
    """Contract of ProcessPoolExecutor: submit / shutdown / broken state / cancel_futures."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                 max_tasks_per_child=None):
        self._max_workers = max_workers or 1
        self._q = queue.SimpleQueue()
        self._threads = []
        self._broken = False
        self._shutdown = False
        self._lock = threading.Lock()
        self._pending = []
        self._idle = 0
        self._in_fn = set()
        self._killed = set()

    def submit(self, fn, /, *args, **kwargs):
        s = kernel.CURRENT
        with self._lock:
            if self._broken:
                raise BrokenProcessPool(self._broken)
            if self._shutdown:
                raise RuntimeError("cannot schedule new futures after shutdown")
            hook = getattr(s, "procpool_hook", None)
            if hook is not None and hook("submit"):
                s.fault("pool_broken_submit")
                self._break("A child process terminated abruptly")
                raise BrokenProcessPool(self._broken)
            f = concurrent.futures.Future()
            self._pending.append(f)
            self._q.put((f, fn, args, kwargs))
            if len(self._threads) < self._max_workers and self._idle <= 0:
                t = threading.Thread(target=self._worker, daemon=True)
                t._sim_label = f"pworker#{s.fresh()}"
                self._threads.append(t)
                t.start()
            return f

    def _break(self, why):
        self._broken = why
        s = kernel.CURRENT
        # the manager terminates the remaining workers: what they are running stops here
        for t in self._threads:
            r = getattr(t, "_rec", None)
            if r in self._in_fn and r is not s.cur:
                self._in_fn.discard(r)
                self._killed.add(r)
                for c in getattr(s.world, "calls", ()):
                    if c.thread == r.name and not c.ended:
                        c.t1, c.s1, c.ended, c.wound = s.wall(), s.next_seq(), True, False
                r.killed = kernel.SimKilled
                if r.state == kernel.BLOCKED:
                    r.state = kernel.RUNNABLE
                    r.deadline = None
        for f in list(self._pending):
            if not f.done():
                try:
                    f.set_exception(BrokenProcessPool(why))
                except Exception:
                    pass
        self._pending.clear()

    def _worker(self):
        s = kernel.CURRENT
        while True:
            self._idle += 1
            try:
                item = self._q.get()
            finally:
                self._idle -= 1
            if item is None:
                self._q.put(None)
                return
            f, fn, args, kwargs = item
            item = None
            dups = []
            with self._lock:
                gone = f.done() or not f.set_running_or_notify_cancel()
            if gone:
                if f in self._pending:
                    self._pending.remove(f)
                continue
            try:
                # the feeder thread pickles after submit() returned
                try:
                    blob = pickle.dumps((fn, args, kwargs))
                    s.__dict__.setdefault("dups", {})[s.cur] = dups
                    fn, args, kwargs = pickle.loads(blob)
                except Exception as e:
                    self._finish(f, exc=e)
                    continue
                hook = getattr(s, "procpool_hook", None)
                if hook is not None and hook("run"):
                    s.fault("pool_worker_died")
                    with self._lock:
                        self._break("A process in the process pool was terminated abruptly")
                    return
                me = s.cur
                if self._broken:      # terminated with the pool
                    return
                try:
                    self._in_fn.add(me)
                    try:
                        r = fn(*args, **kwargs)
                    finally:
                        self._in_fn.discard(me)
                    if me in self._killed:
                        me.killed = None
                        return
                    r = pickle.loads(pickle.dumps(r))
                except kernel.SimKilled:
                    if me in self._killed and not s.ending:
                        me.killed = None
                        return
                    raise
                except BaseException as e:
                    try:
                        e = pickle.loads(pickle.dumps(e))
                    except Exception as e2:
                        e = e2
                    self._finish(f, exc=e)
                else:
                    self._finish(f, res=r)
            finally:
                for d in dups:             # the worker drops its copies with the work item
                    d.close()
                if f in self._pending:
                    self._pending.remove(f)

    def _finish(self, f, res=None, exc=None):
        try:
            if exc is not None:
                f.set_exception(exc)
            else:
                f.set_result(res)
        except concurrent.futures.InvalidStateError:
            pass         # the pool broke in the meantime

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self._lock:
            self._shutdown = True
            if cancel_futures:
                for f in list(self._pending):
                    f.cancel()
            self._q.put(None)
        if wait:
            for t in self._threads:
                t.join()


class SimConn:
    """One end of a Pipe(False).  Pickling it to another process duplicates the descriptor; the reader sees
    end of file once every duplicate of the writing end is closed."""

    def __init__(self, q, st, writer):
        self._q, self._st, self._writer = q, st, writer
        self.closed = False
        if writer:
            st["writers"] += 1

    # like a kernel pipe: one atomic step per call
    def send(self, obj):
        if self.closed:
            raise OSError("handle is closed")
        b = pickle.dumps(obj)
        s = kernel.CURRENT
        s.point("pipe-send")
        self._put(b)

    def _put(self, b):
        s = kernel.CURRENT
        self._q.append(b)
        for t in self._st["wait"]:
            s.wake(t)
        self._st["wait"].clear()

    def recv(self):
        s = kernel.CURRENT
        s.point("pipe-recv")
        while True:
            if self.closed:
                raise OSError("handle is closed")
            if self._q:
                return pickle.loads(self._q.popleft())
            if self._st["writers"] == 0:
                raise EOFError
            self._st["wait"].append(s.cur)
            s.block(None, "pipe")

    def close(self):
        if not self.closed:
            self.closed = True
            if self._writer:
                self._st["writers"] -= 1
                if self._st["writers"] == 0:
                    s = kernel.CURRENT
                    for t in self._st["wait"]:
                        s.wake(t)
                    self._st["wait"].clear()

    def fileno(self):
        return 0

    def __reduce__(self):
        s = kernel.CURRENT
        n = s.fresh()
        if not hasattr(s, "conns"):
            s.conns = {}
        s.conns[n] = self
        return (_conn, (n,))


def _conn(n):
    s = kernel.CURRENT
    o = s.conns[n]
    d = SimConn(o._q, o._st, o._writer)
    s.dups[s.cur].append(d)
    return d


def SimPipe(duplex=True):
    if kernel.CURRENT is None:
        import multiprocessing.connection
        return multiprocessing.connection.Pipe(duplex)
    assert not duplex
    q = collections.deque()
    st = {"writers": 0, "wait": []}
    return SimConn(q, st, False), SimConn(q, st, True)


def install():
    import multiprocessing
    concurrent.futures.ProcessPoolExecutor = SimProcessPool
    import concurrent.futures.process as cfp
    cfp.ProcessPoolExecutor = SimProcessPool
    multiprocessing.Pipe = SimPipe
