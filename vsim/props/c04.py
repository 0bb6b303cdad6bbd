"""C04 Scheduling resumes after any transient store, executor or listener fault."""
from ..kernel import US
from ..storetools import Backend, store_exc
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C04"
RUNS_QUICK = 7000
RUNS_THOROUGH = 300000
WALL_QUICK = 200
LEVEL = "exploration"
OPS = ["get_due_tasks", "get_next_run_time", "update_task", "delete_task", "lookup_task", "get_all_tasks", "add_task"]


def run(sim):
    w = World(sim, ID)
    two = sim.chance("w", 50)
    aliases = ["default", "b"] if two else ["default"]
    kinds = {a: sim.wpick("w", STORES) for a in aliases}
    stores = {a: w.make_store(k, where=a) for a, k in kinds.items()}
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:sim.pick("w", [1, 2])]}
    mode = sim.wpick("w", MODES)
    retry = sim.pick("w", [3, 5, 10])
    h = Host(w, mode, stores=stores, executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {}))
                                                for a, k in ek.items()}, store_retry_interval=retry)
    inline = "debug" in ek.values()
    durs = (0, 10_000) if inline else (0, 200_000)
    w.default_plan = Plan(durs, [(6, "ret"), (2, "exc"), (1, "base")] if sim.chance("w", 50) else [(1, "ret")])
    specs = []
    for i in range(sim.rint("w", 1, 4)):
        sp = gen_spec(sim, i, w.wall(), ek, aliases, max_choices=(50,), graces=(None, 1, 30))
        sp.add(h.sched, w.wall)
        specs.append(sp)
    # ---------------- what breaks
    what = sim.pick("w", ["tap", "backend", "tap"])
    bad_stores = [sim.pick("w", aliases)] if sim.chance("w", 60) else list(aliases)
    ops = OPS if sim.chance("w", 40) else [sim.pick("w", OPS[:4])]
    rate = sim.pick("w", [10, 40, 100])
    on = [False]

    def tap(alias, op, tid):
        if on[0] and alias in bad_stores and op in ops and sim.chance("f", rate):
            # an in-memory store has no acknowledgement to lose
            return "before" if kinds[alias] == "memory" else sim.pick("f", ["before", "after"])
        return None

    def backend():
        return sim.pick("f", ["before", "after"]) if on[0] and sim.chance("f", rate) else None
    exec_bad = sim.chance("w", 40)
    if exec_bad:
        w.exec_fault = lambda ex, tid: on[0] and sim.chance("f", 30)
    if sim.chance("w", 40):
        def bad(event):
            if on[0] and sim.chance("f", 30):
                sim.fault("listener_raised")
                if sim.chance("f", 20):
                    raise taskfns.JobBaseError("listener")
                raise InjectedError("listener")
        h.sched.add_listener(bad)
        h.sched.listeners.reverse()
    style = style_for_run(sim, calm=40)
    lo = w.wall()
    h.start()
    for sp in specs:
        sp.t_lo, sp.t_hi = lo, w.wall()
    sim.sleep(sim.pick("w", [0, 1 * US, 2_500_000]))
    on[0] = True
    if what == "tap":
        w.store_fault = tap
    else:
        # stores of one kind share the simulated server or disk
        bad_stores = [a for a in aliases if any(kinds[a] == kinds[b] != "memory" for b in bad_stores)]
        for a in bad_stores:
            if kinds[a] != "memory":
                Backend(w, kinds[a], a).set_fault(backend)
    errs = store_exc()

    def client():
        """Harmless calls that meet the faults too."""
        for _ in range(sim.rint("w", 1, 6)):
            sim.sleep(sim.pick("w", [300_000, 1 * US, 2 * US]))
            sp = sim.pick("w", specs)
            c = sim.pick("w", ["get", "list", "name", "info", "other"])
            try:
                if c == "get":
                    h.sched.get_task(sp.id, sp.store)
                elif c == "list":
                    h.sched.get_tasks()
                elif c == "info":
                    h.sched.get_scheduler_info()
                elif c == "other":
                    tid = f"z{sim.fresh()}"
                    h.sched.add_task(taskfns.plain, "interval", seconds=1000, id=tid, store=sim.pick("w", aliases))
                    h.sched.delete_task(tid)
                else:
                    h.sched.update_task(sp.id, sp.store, name=f"n{sim.fresh()}")
            except (TaskLookupError, ConflictIdError):
                pass
            except errs:
                sim.probe("calls_failed")
    th = sim.spawn(client, name="client") if sim.chance("w", 50) else None
    sim.sleep(sim.pick("w", [4, 8, 15, 25]) * US)
    # ---------------- faults stop
    on[0] = False
    t_clear = w.wall()
    w.store_fault = w.exec_fault = None
    for a in aliases:
        if kinds[a] != "memory":
            Backend(w, kinds[a], a).set_fault(None)
    late = 2 * sim.stall_max_us if sim.style and sim.stalls else 0
    calm_down(sim)
    if th:
        sim.join(th)
    wait = retry * US + 300_000 + late + (300_000 if inline else 0)
    left = t_clear + wait - w.wall()
    sim.sleep(max(left, 0))
    t_end = w.wall() - late
    # ---------------- everybody is served again, and nothing was lost or doubled on the way
    h.sched.pause()
    sim.sleep(200_000)
    for sp in specs:
        now = stored_next(h.sched, sp)
        check_faulty(w, sp, t_end, now, slack=250_000 + (300_000 if inline else 0) + late // 2)
    # a store that had no fault must not have noticed anything
    for a in aliases:
        if a not in bad_stores and style == 0:
            for sp in specs:
                if sp.store == a and ek[sp.executor] != "debug":
                    for s in attempts(w, sp):
                        due = s.times[-1]
                        if due > sp.t_hi and s.t0 - due > 200_000 + 10_000 * 60:
                            w.fail("starved", f"{sp}: store {a} had no fault but run {w.rel(due)} was only submitted "
                                              f"at {w.rel(s.t0)}")
    # no lock is left held: every kind of call still works, from another thread too
    done = []

    def probe():
        h.sched.get_tasks()
        for a in aliases:
            h.sched.add_task(taskfns.plain, "interval", seconds=1000, id=f"probe{a}", store=a)
            h.sched.pause_task(f"probe{a}", a)
            h.sched.delete_task(f"probe{a}", a)
        h.sched.get_scheduler_info()
        done.append(1)
    t = sim.spawn(probe, name="probe")
    if not sim.join(t, 30 * US) or not done:
        w.fail("stuck", "management calls do not return after the faults: " + sim.stacks())
    sim.probe("attempts", len(w.subs))
    sim.probe("store_errors", len(w.store_errors))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"mode": mode, "stores": kinds, "faulty": bad_stores if what == "tap" else "backend", "ops": ops,
            "attempts": len(w.subs), "store_errors": len(w.store_errors)}


def check_faulty(w, sp, t_end, now, slack):
    """Hand-overs follow the schedule; only a failed store update may make run times repeat."""
    atts = [s for s in w.subs if s.task_id == sp.id and s.store == sp.store and s.result != "open"]
    ref = sp.ref
    states = set(expected_starts(sp))
    errs = [e for e in w.store_errors if e[1] == sp.store and e[3] == sp.id and e[2] in ("update_task", "delete_task")]
    # a lookup that failed after an inline run changed something leaves the hand-over unrecorded as well
    errs += [e for e in w.store_errors if e[1] == sp.store and e[3] == sp.id and e[2] == "lookup_task"
             and any(a.s0 < e[0] for a in atts)]
    for k, a in enumerate(atts):
        hi = atts[k + 1].s0 if k + 1 < len(atts) else 1 << 60
        if not a.times or any(x >= y for x, y in zip(a.times, a.times[1:])):
            w.fail("order", f"{sp}: run times out of order {a.times}")
        if a.times[-1] > a.t0:
            w.fail("early", f"{sp}: run time {w.rel(a.times[-1])} submitted at {w.rel(a.t0)}")
        nxt = set()
        for c in states:
            if c is None:
                continue
            seq = chain(ref, c, a.times[-1])
            if seq is None or seq[-1] != a.times[-1]:
                continue
            if (seq[-1:] if sp.coalesce else seq) != a.times:
                continue
            nxt.add(ref.after(a.times[-1]))
            fl = [e for e in errs if a.s1 < e[0] < hi]
            if any(e[4] != "after" for e in fl) or a.result not in ("ok", "max"):
                nxt.add(c)
        if not nxt:
            w.fail("sequence", f"{sp}: hand-over {k} has run times {[w.rel(x) for x in a.times]} at {w.rel(a.t0)}, expected to "
                               f"continue from {[w.rel(c) for c in states]}; failed store calls "
                               f"{[(e[2], e[4]) for e in errs][-4:]}")
        states = nxt
    ok = [c for c in states if c is not None]
    gone_ok = None in states or not states
    if now == "gone":
        if not gone_ok:
            w.fail("vanished", f"{sp}: the task is gone but {[w.rel(c) for c in ok]} is still to come")
        return
    if now is None:
        if not gone_ok or atts:
            w.fail("paused", f"{sp}: the task was left without a next run time")
        return
    if now not in ok and not (gone_ok and atts):
        w.fail("next_run", f"{sp}: stored next run time is {w.rel(now)}, expected {[w.rel(c) for c in ok]}")
    if now <= t_end - slack:
        w.fail("not_resumed", f"{sp}: run time {w.rel(now)} was not submitted within one retry interval after the faults "
                              f"stopped (now {w.rel(t_end)})")
