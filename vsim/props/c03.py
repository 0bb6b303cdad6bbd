"""C03 Concurrent instances never exceed max_instances and no slot leaks."""
import contextlib
from concurrent.futures import BrokenExecutor

from ..kernel import US
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C03"
RUNS_QUICK = 6000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"


def run(sim):
    w = World(sim, ID)
    nex = sim.pick("w", [1, 2, 2])
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:nex]}
    inline = "debug" in ek.values()
    execs = {a: w.make_executor(k, **({"max_workers": sim.pick("w", [6, 2])} if k in ("thread", "process") else {}))
             for a, k in ek.items()}
    mode = sim.wpick("w", MODES)
    h = Host(w, mode, stores={"default": w.make_store(sim.wpick("w", [(60, "memory"), (20, "redis"), (20, "sql")]))},
             executors=execs)
    # ---------------- faults
    faulty = sim.chance("w", 60)
    on = [True]
    sim.procpool_hook = (lambda where: on[0] and sim.chance("f", 6)) if faulty and sim.chance("w", 60) else None
    if faulty:
        for ex in execs.values():
            if hasattr(ex, "pool"):
                flaky_submit(sim, ex, on)
    if faulty and sim.chance("w", 30):
        def bad(event):
            if on[0] and sim.chance("f", 20):
                sim.fault("listener_raised")
                raise InjectedError("listener")
        h.sched.add_listener(bad)
    outcomes = [(6, "ret"), (2, "exc")]
    if faulty:
        outcomes += [(2, "base")]
    durs = (0, 30_000) if inline else sim.pick("w", [(0, 500_000, 1_500_000), (0, 2_500_000, 6 * US)])
    n = sim.rint("w", 1, 3)
    specs = []
    for i in range(n):
        sp = Spec(id=f"t{i}")
        step = sim.pick("w", [2, 1, 3])
        start = w.wall() + sim.pick("w", [1, 2, 0]) * US
        start -= start % US
        sp.trigger, sp.ref, sp.desc = IntervalTrigger(seconds=step, start_at=from_us(start)), RInterval(start, step * US), \
            f"every{step}"
        sp.max_instances = sim.pick("w", [1, 2, 3])
        sp.coalesce = bool(sim.pick("w", [1, 0]))
        sp.executor = sim.pick("w", sorted(ek))
        if ek[sp.executor] == "asyncio" and all(k == "asyncio" for k in ek.values()):
            sp.coro = bool(sim.pick("w", [0, 1]))
        w.plans[sp.id] = Plan(durs, outcomes + ([(2, "cancel")] if sp.coro and faulty else []))
        sp.add(h.sched, w.wall)
        specs.append(sp)
    by = {sp.id: sp for sp in specs}
    nesting = inline and sim.chance("w", 50)
    leaving = inline and faulty and sim.chance("w", 40)
    if nesting or leaving:
        depth = {}

        def inside(c):
            d = depth.get(c.thread, 0)
            if nesting and d < 2 and sim.chance("x", 30) and ek[by[c.tag].executor] == "debug":
                # a task that runs itself again from inside its own run
                depth[c.thread] = d + 1
                for _ in range(sim.pick("x", [1, 3])):
                    with contextlib.suppress(MaximumInstancesError, TaskLookupError, SchedulerNotRunningError,
                                             SystemExit):
                        h.run_task(c.tag)
                depth[c.thread] = d
            if leaving and (c.thread.startswith("client") or d) and sim.chance("x", 30):
                # a task that wants to end the program, executed inline by the caller of run_task
                sim.fault("inline_system_exit")
                raise SystemExit(c.n)
        for sp in specs:
            w.plans[sp.id].hook = inside
    style = style_for_run(sim, calm=25)
    h.start()

    def client(k):
        for _ in range(sim.rint("w", 2, 8)):
            sim.sleep(sim.pick("w", [50_000, 400_000, 900_000, 2 * US]))
            sp = sim.pick("w", specs)
            a = sim.wpick("w", [(6, "run"), (2, "exec"), (1, "max"), (2, "readd"), (1, "replace")])
            try:
                if a == "run":
                    h.run_task(sp.id)
                elif a == "exec" and not sp.coro:
                    h.sched.update_task(sp.id, executor=sim.pick("w", sorted(ek)))
                elif a == "max":
                    h.sched.update_task(sp.id, max_instances=sim.pick("w", [1, 2, 3]))
                elif a == "readd":
                    # another task under the same id, while runs of the first are in progress
                    with contextlib.suppress(TaskLookupError):
                        h.sched.delete_task(sp.id)
                    sim.sleep(sim.pick("w", [0, 100_000]))
                    with contextlib.suppress(ConflictIdError):
                        sp.add(h.sched, w.wall)
                elif a == "replace":
                    sp.add(h.sched, w.wall, replace_existing=True)
            except SystemExit:
                pass
            except (MaximumInstancesError, TaskLookupError, InjectedError, SchedulerNotRunningError,
                    taskfns.JobBaseError, BrokenExecutor):
                pass
            except RuntimeError as e:
                if "shutdown" not in str(e) and "InjectedError" not in repr(e):
                    raise
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 0, 2]))]
    sim.sleep(sim.pick("w", [6, 12, 20]) * US)
    restarted = False
    if faulty and sim.chance("w", 25):
        restarted = True
        at_restart = w.seq()
        for t in ths:
            sim.join(t)
        h.shutdown(wait=False)
        sim.fault("scheduler_restart")
        sim.sleep(sim.pick("w", [0, 2, 7]) * US)
        for sp in specs:        # the memory store starts over
            try:
                sp.add(h.sched, w.wall)
            except ConflictIdError:
                pass
        h.start()
        sim.sleep(4 * US)
    for t in ths:
        sim.join(t)
    on[0] = False
    sim.procpool_hook = None
    for sp in specs:
        h.sched.pause_task(sp.id)
        w.plans[sp.id].hook = None
        w.plans[sp.id].outcomes = [(1, "ret")]
    quiesce(w, h, 1)
    for sp in specs:        # a nested run_task that was still in progress may have resumed the schedule
        h.sched.pause_task(sp.id)
    # everything submitted so far ends
    total = sum(len(s.times) for s in w.subs if s.result in ("ok", "open"))
    sim.sleep(total * max(durs) + 5 * US)
    if restarted and "asyncio" in ek.values():
        # plain functions that were cancelled with the asyncio executor keep winding down in their threads
        for c in w.calls:
            c.wound = c.s1 is None or c.s1 > at_restart
    check_concurrency(w, by, style == 0)
    # ---------------- the slots are all free again, and no more than max of them
    for sp in specs:
        w.plans[sp.id] = Plan((0,) if inline else (1 * US,))
        mx = h.sched.get_task(sp.id).max_instances
        ex = ek[h.sched.get_task(sp.id).executor]
        for rnd in range(2):
            n0 = len(w.calls)
            got = 0
            for k in range(mx + 1):
                try:
                    h.run_task(sp.id)
                    got += 1
                except MaximumInstancesError:
                    break
                finally:
                    h.sched.pause_task(sp.id)
            want = mx + 1 if ex == "debug" else mx
            if got != want:
                w.fail("slots", f"{sp}: all earlier runs are over, {want} submissions must be accepted but {got} were "
                                f"(round {rnd}, instances {dict(h.sched.instances)})")
            sim.sleep(4 * US)
            ran = sum(c.tag == sp.id for c in w.calls[n0:])
            if ran != want:
                w.fail("ran", f"{sp}: {want} accepted submissions led to {ran} calls")
    sim.probe("refused", sum(s.result == "max" for s in w.subs))
    sim.probe("accepted", sum(s.result == "ok" for s in w.subs))
    sim.probe("restarted", restarted)
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"mode": mode, "executors": ek, "tasks": [repr(s) for s in specs], "calls": len(w.calls)}


def flaky_submit(sim, ex, on):
    """The hand-over to the pool sometimes fails, before the pool took the work."""
    cls = type(ex.pool)
    if not getattr(cls, "_flaky", False):
        class Flaky(cls):
            _flaky = True

            def submit(self, *a, **k):
                s = kernel.CURRENT
                if s is not None and getattr(s, "flaky_on", [False])[0] and s.chance("f", 8):
                    s.fault("pool_submit_failed")
                    raise InjectedError("can't start new thread")
                return super().submit(*a, **k)
        Flaky.__name__ = cls.__name__
        ex.pool = Flaky(ex.pool._max_workers)
    sim.flaky_on = on


def check_concurrency(w, by, calm):
    for tid, sp in by.items():
        subs = [s for s in w.subs if s.task_id == tid]
        calls = [c for c in w.calls if c.tag == tid and not c.wound]
        mx = max([s.max_instances for s in subs], default=1)
        # overlapping executions of the function
        pts = []
        for c in calls:
            pts.append((c.s0, 1, c))
            pts.append((c.s1 if c.s1 is not None else 1 << 60, -1, c))
        cur = 0
        for _, d, c in sorted(pts, key=lambda p: p[0]):
            cur += d
            if cur > mx:
                w.fail("too_many", f"{sp}: {cur} calls of the function at once, max_instances was at most {mx}")
        # terminal events give back slots; the value ties them to calls and thereby to submissions
        ends = {}
        uniq = {}
        for s in subs:
            if s.result in ("ok", "open"):
                for t in s.times:
                    uniq[t] = uniq.get(t, 0) + 1
        last_call = {}
        for e in w.events:
            if e.task_id == tid and e.code in TERMINAL:
                t = e.times[0]
                ends.setdefault(t, []).append(e)
                n = None
                if e.code == EV.TASK_EXECUTED and isinstance(e.event.return_value, str):
                    n = int(e.event.return_value[1:])
                elif e.code == EV.TASK_ERROR and isinstance(e.event.exception, taskfns.JobError):
                    n = e.event.exception.args[0]
                if n is not None:
                    last_call[t] = w.calls[n]
        lower = {}
        upper = {}
        for s in subs:
            if s.result not in ("ok", "open"):
                continue
            if all(uniq[t] == 1 for t in s.times):
                cs = [last_call[t].s1 for t in s.times if t in last_call]
                lower[s.n] = max(cs) if cs else s.s1
                if all(t in ends for t in s.times):
                    upper[s.n] = max(ends[t][-1].seq for t in s.times)
        for s in subs:
            if s.result == "ok":
                busy = [o for o in subs if o is not s and o.result == "ok" and o.n in lower
                        and o.s1 <= s.s0 and lower[o.n] >= s.s1]
                if len(busy) >= s.max_instances:
                    w.fail("over_limit", f"{sp}: submission {s} was accepted while {busy} were in progress")
            elif s.result == "max":
                maybe = []
                for o in subs:
                    if o is s or o.result not in ("ok", "open") and not str(o.result).startswith("error"):
                        continue
                    if o.s0 > s.s1:
                        continue
                    if str(o.result).startswith("error"):
                        if o.s1 < s.s0:
                            continue
                    elif o.n in upper:
                        if upper[o.n] < s.s0:
                            continue
                    else:
                        # no record of its end; only without stalls is the distance in time telling
                        cs = [c for c in calls]
                        if calm and all(c.t1 is not None and c.t1 < s.t0 - 8 * US for c in cs if c.s0 < s.s0) and \
                                o.t0 < s.t0 - 60 * US:
                            continue
                    maybe.append(o)
                if len(maybe) < s.max_instances:
                    w.fail("refused", f"{sp}: submission {s} was refused with at most {len(maybe)} of "
                                      f"{s.max_instances} instances in progress")
                n = [e for e in w.events if e.task_id == tid and e.code == EV.TASK_MAX_INSTANCES and e.times == s.times]
                if not n and s.t1 is not None:
                    w.fail("unreported", f"{sp}: refused submission {s} was not reported")
        if sum(e.code == EV.TASK_MAX_INSTANCES and e.task_id == tid for e in w.events) != \
                sum(s.result == "max" for s in subs):
            w.fail("max_events", f"{sp}: refusal events do not match the refused submissions")
        # a refused submission runs nothing: number of calls never exceeds the accepted run times
        acc = sum(len(s.times) for s in subs if s.result in ("ok", "open") or str(s.result).startswith(("error:Job", "error:SystemExit")))
        if len(calls) > acc:
            w.fail("ran_refused", f"{sp}: {len(calls)} calls but only {acc} accepted run times")
