"""Deterministic simulation kernel.

One run = one `Sim`.  Real OS threads execute real code, but exactly one holds the
baton at any moment; every scheduling decision, delay and fault is drawn from recorded
choice streams.  Virtual time only moves when every thread is blocked (or when a thread
is stalled on purpose).
"""
from __future__ import annotations

import _thread
import hashlib
import random
import sys
import traceback

_get_ident = _thread.get_ident
CURRENT = None  # the active Sim, or None (all patched primitives then behave natively)

RUNNABLE, BLOCKED, DONE = 0, 1, 2
US = 1_000_000


class SimKilled(BaseException):
    """Raised inside simulated threads to unwind them (crash or end of run)."""


class SimHang(BaseException):
    """Step budget exhausted: some code did not terminate."""


class SimDeadlock(BaseException):
    """Raised in the main simulated thread when nothing can ever run again."""


class SimTimeLimit(BaseException):
    """Raised in the main simulated thread when simulated time passed the run's limit."""


class Violation(Exception):
    """Raised by oracles; `kind` is a stable short code used by the minimiser."""

    def __init__(self, kind, msg, prop=None):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg
        self.prop = prop


class TRec:
    __slots__ = ("gate", "state", "deadline", "woken", "killed", "name", "proc", "idx",
                 "exc", "py", "ident", "waiting_on", "exit_waiters", "nopreempt", "cpu")

    def __init__(self, name, idx, proc):
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = RUNNABLE
        self.deadline = None
        self.woken = False
        self.killed = None
        self.name = name
        self.idx = idx
        self.proc = proc
        self.exc = None
        self.py = None
        self.ident = None
        self.waiting_on = None
        self.exit_waiters = []
        self.nopreempt = 0
        self.cpu = 0


class Proc:
    """A simulated operating-system process: a group of threads that dies together."""

    def __init__(self, name):
        self.name = name
        self.alive = True
        self.on_crash = []

    def __repr__(self):
        return f"<proc {self.name}>"


GAPS = [0, 1, 2, 3, 4, 5, 7, 9, 12, 15, 20, 26, 34, 45, 60, 80, 105, 140, 185, 245, 325, 430,
        570, 760, 1000, 1350, 1800, 2400, 3200, 4300, 5700, 7600]


class Sim:
    def __init__(self, seed=0, replay=None, max_steps=3_000_000, wall_start=None):
        self.seed = seed
        self.replay = replay  # {stream: [ints]} or None
        self.rngs = {}
        self.rec = {}
        self.pos = {}
        self.mono = 1000 * US
        # 2031-05-06 07:00:00 UTC by default
        self.wall_off = (wall_start if wall_start is not None else 1935990000 * US) - self.mono
        self.threads = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = None  # absolute mono limit
        self.gap = 0
        self.gap_armed = False
        self.line_mode = False
        self.style = 0
        self.gap_lo, self.gap_hi = 8, 24
        self.stalls = True
        self.persist = 10
        self.stall_max_us = 3 * US
        self.log = []
        self.log_hash = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.switches = 0
        self.preempts = 0
        self.stall_count = 0
        self.stall_total = 0
        self.faults = {}
        self.probes = {}
        self.ending = False
        self.main = None
        self.atomic_depth = 0
        self.violations = []
        self.keep_log = True
        self.uid = 0
        self.default_proc = Proc("main")
        self.thread_errors = []
        self.seq = 0
        self.timer_late_p = 0
        self.state_sigs = set()
        self.crash_hook = None
        self.last_stacks = ""
        self.fatal = None   # (kind, stacks) once the run can not continue
        self.fs = None

    # ------------------------------------------------------------ choices
    def _rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random(f"{self.seed}/{stream}")
            self.rec[stream] = []
            self.pos[stream] = 0
        return r

    def draw(self, stream, n):
        """Uniform integer in [0, n); 0 is always the simplest choice."""
        r = self._rng(stream)
        if n <= 1:
            return 0
        if self.replay is not None:
            src = self.replay.get(stream, ())
            i = self.pos[stream]
            self.pos[stream] = i + 1
            v = src[i] if i < len(src) else 0
            if v >= n:
                v = n - 1
        else:
            v = r.randrange(n)
        self.rec[stream].append(v)
        return v

    def chance(self, stream, num, den=100):
        """True with probability num/den; False is the simplest choice."""
        if num <= 0:
            return False
        return self.draw(stream, den) >= den - num

    def pick(self, stream, seq):
        return seq[self.draw(stream, len(seq))]

    def rint(self, stream, lo, hi):
        return lo + self.draw(stream, hi - lo + 1)

    def wpick(self, stream, pairs):
        """pairs: [(weight, value)]; the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(stream, total)
        for w, val in pairs:
            if v < w:
                return val
            v -= w
        raise AssertionError

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fresh(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ time
    def wall(self):
        return self.mono + self.wall_off

    def next_seq(self):
        self.seq += 1
        return self.seq

    def note(self, *parts):
        """Append to the run's history (hashed: two replays must agree byte for byte)."""
        c = self.cur
        line = f"{self.mono - 1000 * US}|{c.name if c else '-'}|" + "|".join(map(str, parts))
        self.log_hash.update(line.encode("utf-8", "backslashreplace"))
        self.log_hash.update(b"\n")
        if self.keep_log:
            self.log.append(line)

    def violate(self, kind, msg):
        self.violations.append((kind, msg))
        self.note("VIOLATION", kind, msg)

    # ------------------------------------------------------------ threads
    def new_thread(self, name, proc=None):
        t = TRec(name, len(self.threads), proc or (self.cur.proc if self.cur else self.default_proc))
        self.threads.append(t)
        return t

    def runnable(self):
        return [t for t in self.threads if t.state == RUNNABLE]

    def _switch_to(self, t):
        """Hand the baton from the current thread (which stays parked) to t."""
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.sched_hash.update(b"%d:%d;" % (t.idx, me.cpu & 0xffff))
        self.cur = t
        t.gate.release()
        me.gate.acquire()
        # we own the baton again

    def _check_killed(self, me):
        if me.killed is not None:
            k = me.killed
            if k is not SimKilled:
                me.killed = SimKilled if self.ending else None
                raise k()
            raise SimKilled()

    def check_alive(self):
        me = self.cur
        if me.killed is not None:
            self._check_killed(me)
        if not me.proc.alive:
            raise SimKilled()

    def _pick_next(self, exclude=None):
        """Choose the next thread; advances virtual time when nothing is runnable."""
        while True:
            rs = [t for t in self.threads if t.state == RUNNABLE and t is not exclude]
            if rs:
                if len(rs) == 1:
                    return rs[0]
                return rs[self.draw("s", len(rs))]
            if exclude is not None and exclude.state == RUNNABLE:
                return exclude
            nxt = None
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None and (nxt is None or t.deadline < nxt):
                    nxt = t.deadline
            if nxt is None:
                m = self.main
                if m.state == DONE:
                    raise AssertionError("sim: main finished and nothing runnable")
                self._fatal("deadlock")
                m.killed = SimDeadlock
                m.state = RUNNABLE
                continue
            if self.max_time is not None and nxt > self.max_time and not self.ending:
                self.mono = max(self.mono, self.max_time)
                self.max_time = None
                self._fatal("timeout")
                self.main.killed = SimTimeLimit
                self.main.state = RUNNABLE
                continue
            if nxt > self.mono:
                self.mono = nxt
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None and t.deadline <= self.mono:
                    t.deadline = None
                    t.woken = False
                    t.state = RUNNABLE

    def block(self, timeout_us=None, what=None):
        """Park the current thread until wake() or the timeout.  True if woken."""
        me = self.cur
        if me.ident != _get_ident():
            raise SimKilled()
        self.check_alive()
        if self.ending and me.killed is not None:
            raise SimKilled()
        me.state = BLOCKED
        me.woken = False
        me.waiting_on = what
        me.deadline = None if timeout_us is None else self.mono + max(0, int(timeout_us))
        t = self._pick_next()
        if t is not me:
            self._switch_to(t)
        me.waiting_on = None
        self.check_alive()
        return me.woken

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.deadline = None
            t.woken = True

    def sleep(self, us):
        if us <= 0:
            self.point("sleep0")
            return
        self.block(us, "sleep")

    # ------------------------------------------------------------ preemption
    def configure_preemption(self, style, lo=8, hi=24, stalls=True, stall_max_us=3 * US):
        """style 0: switch only when blocking; 1: also at sync/I/O points; 2: also at
        every source line of the code under test."""
        self.style = style
        self.gap_lo, self.gap_hi = lo, hi
        self.stalls = stalls
        self.stall_max_us = stall_max_us
        self.line_mode = style >= 2
        self._arm()

    def _arm(self):
        if self.style == 0:
            self.gap = 1 << 60
            return
        # 0 = never preempt again (simplest)
        n = self.gap_hi - self.gap_lo + 1
        v = self.draw("s", n * self.persist + 1)
        self.gap = (1 << 60) if v == 0 else GAPS[min(len(GAPS) - 1, self.gap_lo + (v - 1) % n)]

    def point(self, what=None):
        """A possible preemption point (sync operation, I/O, or a source line)."""
        me = self.cur
        if me.ident != _get_ident():
            raise SimKilled()      # a destructor running while its ended thread is torn down
        me.cpu += 1
        self.steps += 1
        if me.killed is not None or not me.proc.alive:
            self.check_alive()
        if self.steps > self.max_steps:
            self.hang()
        self.gap -= 1
        if self.gap > 0 or me.nopreempt or self.atomic_depth or self.ending:
            return
        self._arm()
        others = [t for t in self.threads if t.state == RUNNABLE and t is not me]
        k = len(others)
        opts = k + (1 if self.stalls else 0)
        if opts == 0:
            return
        if k == 0 and self.draw("s", 8) < 6:
            return
        c = self.draw("s", opts)
        if c < k:
            self.preempts += 1
            self._switch_to(others[c])
            self.check_alive()
        else:
            us = self.stall_amount()
            self.stall_count += 1
            self.stall_total += us
            self.block(us, "stall")

    def _fatal(self, kind):
        if self.fatal is None and not self.ending:
            self.last_stacks = self.stacks()
            self.fatal = (kind, self.last_stacks)

    def hang(self):
        """The step budget is exhausted: report where, unwind everybody."""
        me = self.cur
        self.max_steps = self.steps + 200_000  # let unwinding code run
        self._fatal("hang")
        m = self.main
        if me is m:
            raise SimHang()
        m.killed = SimHang
        if m.state == BLOCKED:
            m.state = RUNNABLE
            m.deadline = None
        me.killed = SimKilled
        raise SimKilled()

    def watchdog(self):
        """The run used up its processor time without coming to a scheduling point (called from a signal
        handler on the main OS thread): end whoever holds the baton."""
        if self.ending:
            return
        me, m = self.cur, self.main
        if m.state == DONE:
            return
        self.max_steps = self.steps + 200_000
        self._fatal("hang")
        if me is m:
            raise SimHang()
        m.killed = SimHang
        if m.state == BLOCKED:
            m.state = RUNNABLE
            m.deadline = None
        me.killed = SimKilled
        import ctypes
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me.ident), ctypes.py_object(SimKilled))

    def stall_amount(self):
        m = self.stall_max_us
        return self.pick("s", [min(m, 50), min(m, 1000), min(m, 20_000), min(m, 150_000),
                               min(m, 700_000), m])

    def maybe_yield(self):
        rs = [t for t in self.threads if t.state == RUNNABLE and t is not self.cur]
        if rs:
            c = self.draw("s", len(rs) + 1)
            if c:
                self._switch_to(rs[c - 1])
                self.check_alive()

    def yield_now(self):
        """Let every other runnable thread have a chance (used by drivers)."""
        me = self.cur
        self.check_alive()
        t = self._pick_next(exclude=me)
        if t is not me:
            self._switch_to(t)
            self.check_alive()

    # ------------------------------------------------------------ spawn / join
    def spawn(self, fn, name=None, proc=None):
        from .patches import SimThread
        th = SimThread(target=fn, daemon=True)
        th._sim_label = name
        th._sim_proc = proc
        th.start()
        return th._rec

    def _exit_thread(self, t):
        t.state = DONE
        for w in t.exit_waiters:
            self.wake(w)
        t.exit_waiters = []
        try:
            nxt = self._pick_next()
        except AssertionError:
            nxt = self.main
        self.sched_hash.update(b"x%d;" % nxt.idx)
        self.cur = nxt
        nxt.gate.release()

    def join(self, t, timeout_us=None):
        end = None if timeout_us is None else self.mono + timeout_us
        while t.state != DONE:
            left = None if end is None else end - self.mono
            if left is not None and left <= 0:
                return False
            t.exit_waiters.append(self.cur)
            self.block(left, f"join {t.name}")
        return True

    # ------------------------------------------------------------ crash
    def crash(self, proc):
        """Kill a simulated process: its threads never take another effective step."""
        if not proc.alive:
            return
        proc.alive = False
        self.note("CRASH", proc.name)
        for cb in list(proc.on_crash):
            cb()
        if self.fs is not None:
            self.fs.proc_died(proc)
        for t in self.threads:
            if t.proc is proc and t.state != DONE and t is not self.cur:
                t.killed = SimKilled
                if t.state == BLOCKED:
                    t.state = RUNNABLE
                    t.deadline = None
        if self.cur.proc is proc:
            raise SimKilled()

    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state == DONE:
                continue
            f = frames.get(t.ident)
            sites = []
            while f is not None and len(sites) < 12:
                fn = f.f_code.co_filename
                if "/vsim/" not in fn and "threading.py" not in fn:
                    sites.append(f"{fn.split('/')[-1]}:{f.f_code.co_name}")
                f = f.f_back
            out.append(f"{t.name}({['runnable', 'blocked', 'done'][t.state]}"
                       f"{' on ' + str(t.waiting_on) if t.waiting_on else ''}): {' < '.join(sites[:8])}")
        return "; ".join(out)

    # ------------------------------------------------------------ run
    def run(self, fn):
        """Execute fn() as the main simulated thread (on the calling OS thread)."""
        global CURRENT
        assert CURRENT is None
        me = self.new_thread("main", self.default_proc)
        me.ident = _thread.get_ident()
        self.main = me
        self.cur = me
        CURRENT = self
        try:
            return fn()
        finally:
            try:
                self._end(me)
            finally:
                CURRENT = None

    def _end(self, me):
        self.ending = True
        self.max_time = None
        for t in self.threads:
            if t is not me and t.state != DONE:
                t.killed = SimKilled
        for _round in range(10000):
            live = [t for t in self.threads if t is not me and t.state != DONE]
            if not live:
                break
            t = live[0]
            t.killed = SimKilled
            t.state = RUNNABLE
            t.deadline = None
            me.state = RUNNABLE
            me.killed = None
            # run t until it exits or blocks; others of the same batch get their turn later
            for o in live[1:]:
                o.state = BLOCKED
                o.deadline = None
            self.cur = t
            t.gate.release()
            me.gate.acquire()
            self.cur = me
            me.killed = None
        me.killed = None
        me.state = DONE
