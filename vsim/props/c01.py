"""C01 Every due run is submitted exactly once, in order, with honest coalescing."""
from ..kernel import US
from ..world import *  # noqa
from ..workload import *  # noqa

ID = "C01"
RUNS_QUICK = 4000
RUNS_THOROUGH = 200000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["asyncz schedulers, stores (memory, file, redis, mongo, sqlalchemy), executors, triggers, tasks, events",
        "CPython asyncio BaseEventLoop, concurrent.futures.ThreadPoolExecutor, redis-py client, SQLAlchemy + SQLite"]
STUB = ["OS threads scheduling (baton), clock, selector, process pool workers (simulated processes)",
        "redis server, mongo client+server (model), file system (model)"]


def run(sim):
    w = World(sim, ID)
    nstores = sim.pick("w", [1, 1, 2])
    aliases = ["default", "b"][:nstores]
    stores = {a: w.make_store(sim.wpick("w", STORES), where=a) for a in aliases}
    nex = sim.pick("w", [1, 1, 2])
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:nex]}
    mode = sim.wpick("w", MODES)
    h = Host(w, mode, stores=stores, executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {})) for a, k in ek.items()})
    durs = sim.pick("w", [(0,), (0, 20_000), (0, 700_000, 2_500_000)])
    if "debug" in ek.values():     # runs inline: a backlog must be able to drain
        durs = tuple(min(d, 50_000) for d in durs)
    w.default_plan = Plan(durs)
    n = sim.rint("w", 1, 5)
    maxc = sim.pick("w", [(50,), (1, 2, 50)])
    specs = []
    t0 = w.wall()
    pending = sim.rint("w", 0, n)
    for i in range(n):
        specs.append(gen_spec(sim, i, t0, ek, aliases, max_choices=maxc, graces=(None, 1, 30)))
    for sp in specs[:pending]:
        sp.add(h.sched, w.wall)
    style = style_for_run(sim)
    sim.timer_late_p = sim.pick("w", [0, 0, 20]) if style else 0
    lo = w.wall()
    h.start()
    hi = w.wall()
    for sp in specs[:pending]:
        sp.t_lo, sp.t_hi = lo, hi
    late = specs[pending:]
    errs = []

    def client(mine):
        for sp in mine:
            sim.sleep(sim.pick("w", [0, 1000, 300_000, 1_700_000, 4 * US]))
            sp.trigger, sp.ref, sp.desc = gen_trigger(sim, w.wall(), past=True)
            sp.explicit = None
            try:
                sp.add(h.sched, w.wall)
            except Exception as e:  # noqa
                errs.append((sp, e))
            if sim.chance("w", 20):
                h.sched.get_task_infos()
                h.sched.preview_task_runs(sp.id)
    ths = []
    nc = sim.pick("w", [1, 1, 2, 3])
    for c in range(nc):
        mine = late[c::nc]
        if mine:
            ths.append(sim.spawn(lambda mine=mine: client(mine), name=f"client{c}"))
    dur = sim.pick("w", [12, 8, 25, 45])
    if sim.chance("w", 15):
        sim.sleep(sim.rint("w", 1, 5) * US)
        h.in_loop(h.sched.pause) if mode != "thread" else h.sched.pause()
        p0 = sim.seq
        sim.sleep(sim.rint("w", 0, 6) * US)
        h.in_loop(h.sched.resume) if mode != "thread" else h.sched.resume()
        style = style or 1
    sim.sleep(dur * US)
    for t in ths:
        sim.join(t)
    if errs:
        w.fail("add_failed", f"add_task raised {errs[0][1]!r} for {errs[0][0]}")
    t_end = quiesce(w, h, 3)
    calm = style == 0 and not any(k == "debug" for k in ek.values()) and not sim.timer_late_p
    nows = {sp.id: stored_next(h.sched, sp) for sp in specs}
    for sp in specs:
        check_schedule(w, sp, t_end, nows[sp.id], horizon_slack=US if not any(k == "debug" for k in ek.values())
                       else 20 * US, exact_late=100_000 if calm else None)
    extra = [s for s in w.subs if s.task_id not in {x.id for x in specs}]
    if extra:
        w.fail("foreign", f"submissions of unknown tasks {extra}")
    sim.probe("attempts", len(w.subs))
    sim.probe("refused", sum(s.result == "max" for s in w.subs))
    sim.probe("coalesced", sum(bool(getattr(e.event, "coalesced_run_count", 0)) for e in w.events))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"mode": mode, "executors": ek, "tasks": [repr(s) for s in specs], "attempts": len(w.subs),
            "calls": len(w.calls)}
