"""Shared workload generation and history oracles for scheduler properties."""
from __future__ import annotations

from . import refmodel, taskfns
from .kernel import US
from .refmodel import from_us, to_us
from .world import (EV, TERMINAL, Host, Plan, World, calm_down, gen_trigger, style_for_run)

STORES = [(40, "memory"), (12, "file"), (14, "redis"), (12, "mongo"), (14, "sql")]
EXECS = [(40, "asyncio"), (30, "thread"), (12, "debug"), (12, "process")]
MODES = [(50, "thread"), (25, "loop"), (25, "native")]


class Spec:
    """One task the workload adds, with the reference schedule it must follow."""

    def __init__(self, **kw):
        self.id = None
        self.trigger = self.ref = self.desc = None
        self.coalesce = False
        self.grace = None
        self.max_instances = 50
        self.executor = "default"
        self.store = "default"
        self.coro = False
        self.explicit = None      # explicit next_run_time (µs)
        self.paused = False
        self.replace = False
        self.t_lo = self.t_hi = None   # when the add happened (wall µs)
        self.__dict__.update(kw)

    def add(self, sched, now_fn, **kw):
        args = dict(id=self.id, trigger=self.trigger, args=[self.id], coalesce=self.coalesce,
                    mistrigger_grace_time=self.grace, max_instances=self.max_instances, executor=self.executor,
                    store=self.store)
        if self.explicit is not None:
            args["next_run_time"] = from_us(self.explicit)
        if self.paused:
            args["next_run_time"] = None
        args.update(kw)
        lo = now_fn()
        r = sched.add_task(taskfns.ajob if self.coro else taskfns.job, **args)
        self.t_lo, self.t_hi = lo, now_fn()
        return r

    def __repr__(self):
        return f"{self.id}:{self.desc} co={self.coalesce} gr={self.grace} max={self.max_instances} ex={self.executor}" \
               f" st={self.store} coro={self.coro}"


def gen_spec(sim, i, now, exec_kinds, stores, max_choices=(50,), graces=(None,), kinds=("date", "interval", "cron"),
             explicit=True):
    """exec_kinds: {alias: kind}; stores: [alias]."""
    sp = Spec(id=f"t{i}")
    sp.trigger, sp.ref, sp.desc = gen_trigger(sim, now, kinds)
    sp.coalesce = sim.pick("w", [False, True])
    sp.grace = sim.pick("w", list(graces))
    sp.max_instances = sim.pick("w", list(max_choices))
    sp.executor = sim.pick("w", sorted(exec_kinds))
    sp.store = sim.pick("w", stores)
    if exec_kinds[sp.executor] == "asyncio":
        sp.coro = bool(sim.pick("w", [0, 1]))
    if explicit and sp.ref.kind in ("cron", "interval") and sim.chance("w", 12):
        ins = sp.ref.instants(now - 20 * US, now + 20 * US)
        if ins:
            sp.explicit = sim.pick("w", ins)
            sp.desc += "@explicit"
    return sp


def pair_events(w, task_id, store=None):
    """Submission events of a task in dispatch order."""
    return [e for e in w.events if e.task_id == task_id and e.code in (EV.TASK_SUBMITTED, EV.TASK_MAX_INSTANCES)
            and (store is None or e.event.store == store)]


def attempts(w, spec):
    return [s for s in w.subs if s.task_id == spec.id and s.store == spec.store and s.result in ("ok", "max", "open")
            and not s.manual]


def expected_starts(spec):
    """All instants the first run may legitimately have (add happened in [t_lo, t_hi])."""
    if spec.explicit is not None:
        return [spec.explicit]
    a, b = spec.ref.first(spec.t_lo), spec.ref.first(spec.t_hi)
    if a is None:
        return []
    if spec.ref.kind == "date" or a == b:
        return [a]
    hi = b if b is not None else spec.t_hi
    return spec.ref.instants(a, max(a, hi)) + ([None] if b is None else [])


def check_schedule(w, spec, t_end, now, horizon_slack=1 * US, exact_late=None, alive=True, early_ok=None):
    """C01: the attempts of one never-modified task against its reference schedule.

    t_end: the scheduler processed undisturbed until this wall time."""
    evs = [e for e in pair_events(w, spec.id, spec.store)]
    atts = attempts(w, spec)
    who = f"{spec!r}"
    subs = [a for a in atts if a.result != "open"]
    if len(evs) != len(subs):
        w.fail("events", f"{who}: {len(subs)} hand-overs but {len(evs)} submission events: {subs} / {evs}")
    starts = expected_starts(spec)
    if spec.paused:
        if atts:
            w.fail("paused_ran", f"{who}: submitted although added as paused: {atts}")
        return
    nxt = None  # next expected instant
    first = True
    for k, a in enumerate(atts):
        e = evs[k] if k < len(evs) else None
        if e is not None:
            if e.times != a.times:
                w.fail("event_times", f"{who}: event {k} reports {[w.rel(x) for x in e.times]}, handed over "
                                      f"{[w.rel(x) for x in a.times]}")
            if (e.code == EV.TASK_SUBMITTED) != (a.result == "ok"):
                w.fail("event_kind", f"{who}: hand-over {a} reported as {e}")
            if e.event.source != "scheduled":
                w.fail("event_source", f"{who}: scheduled run reported as {e.event.source}")
            folded = e.event.coalesced_run_count
        else:
            folded = None
        if not a.times:
            w.fail("empty", f"{who}: empty hand-over {a}")
        if any(x >= y for x, y in zip(a.times, a.times[1:])):
            w.fail("order", f"{who}: run times out of order {a.times}")
        for t in a.times:
            if t > a.t0 and not (early_ok is not None and early_ok(a, t)):
                w.fail("early", f"{who}: run time {w.rel(t)} submitted at {w.rel(a.t0)}")
        if spec.coalesce and len(a.times) != 1:
            w.fail("coalesce", f"{who}: coalescing task handed {len(a.times)} run times")
        if not spec.coalesce and folded:
            w.fail("coalesce_count", f"{who}: coalesced count {folded} on a non-coalescing task")
        if first:
            cands = starts
            first = False
        else:
            cands = [nxt] if nxt is not None else []
        # consume
        ok = False
        for c in cands:
            if c is None:
                continue
            seq = chain(spec.ref, c, a.times[-1])
            if seq is None or seq[-1] != a.times[-1]:
                continue
            if spec.coalesce:
                if folded is None or len(seq) - 1 == folded:
                    ok = True
                    break
            elif seq == a.times:
                ok = True
                break
        if not ok:
            w.fail("sequence", f"{who}: hand-over {k} has run times {[w.rel(x) for x in a.times]} (folded {folded}), "
                               f"expected to continue from {[w.rel(x) for x in cands]} "
                               f"(sequence {[w.rel(x) for x in (chain(spec.ref, cands[0], a.times[-1]) or [])][:8] if cands else '-'})")
        nxt = spec.ref.after(a.times[-1])
        if a.pass_now is not None and nxt is not None and nxt <= a.pass_now:
            w.fail("left_behind", f"{who}: pass at {w.rel(a.pass_now)} left {w.rel(nxt)} behind")
        if exact_late is not None and a.t0 - a.times[-1] > exact_late and a.times[-1] > (spec.t_hi or 0):
            w.fail("late", f"{who}: run time {w.rel(a.times[-1])} only submitted at {w.rel(a.t0)}")
    # liveness and final state
    cand = starts if first else ([nxt] if nxt is not None else [])
    if None in cand:      # the trigger may have been exhausted when the task was added
        if now is None or now == "gone":
            return []
        cand = cand[:-1]
    if not alive:
        return cand
    if cand and min(cand[-1:]) <= t_end - horizon_slack:
        w.fail("lost", f"{who}: run time {w.rel(cand[-1])} was never submitted although the scheduler ran until "
                       f"{w.rel(t_end)} (handed over so far: {[[w.rel(x) for x in a.times] for a in atts][-3:]})")
    if now is not None:
        stored = now
        if cand:
            if stored == "gone":
                w.fail("vanished", f"{who}: task is gone but {w.rel(cand[-1])} is still to come")
            if stored not in cand:
                w.fail("next_run", f"{who}: stored next run time is {w.rel(stored)}, expected {[w.rel(x) for x in cand]}")
        else:
            if stored != "gone" and not (first and stored is None):
                w.fail("not_removed", f"{who}: schedule is exhausted but the task is still there (next {w.rel(stored)})")
            if not first:
                n = [e for e in w.events if e.code == EV.TASK_REMOVED and e.task_id == spec.id]
                if len(n) != 1:
                    w.fail("removed_event", f"{who}: exhausted task has {len(n)} removal events")
    return cand


def chain(ref, start, last):
    """Successive reference instants from start up to last (None if last is before start)."""
    if start is None or last < start:
        return None
    out = [start]
    n = 0
    while out[-1] < last:
        x = ref.after(out[-1])
        if x is None:
            break
        out.append(x)
        n += 1
        if n > 5000:
            break
    return out


def stored_next(sched, spec):
    t = sched.get_task(spec.id, spec.store)
    if t is None:
        return "gone"
    return to_us(t.next_run_time) if t.next_run_time else None


def quiesce(w, host, seconds=3):
    """Faults and preemption stop; the scheduler gets undisturbed time.

    Returns the wall time up to which everything due must have been processed: a stall that began
    before this call may still last stall_max, and one that hit the scheduler between computing a
    wait and arming its timer makes that timer late by as much."""
    s = w.sim
    late = 2 * s.stall_max_us if s.style and s.stalls else s.stall_max_us if s.timer_late_p else 0
    calm_down(s)
    w.store_fault = w.exec_fault = None
    s.sleep(3_100_000)
    s.sleep(int(seconds * US) + late)
    return w.wall() - late
