"""C21 A manual run submits exactly once and keeps the schedule intact."""
from ..kernel import US
from ..seqspec import Ops, attach_runs, check_task
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB
from .c05 import new_trigger

ID = "C21"
RUNS_QUICK = 6000
RUNS_THOROUGH = 300000
WALL_QUICK = 200
LEVEL = "exploration"


def run(sim):
    w = World(sim, ID)
    kind = sim.wpick("w", EXECS)
    inline = kind == "debug"
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store(sim.wpick("w", STORES))},
             executors={"default": w.make_executor(kind)})
    s = h.sched
    ops = Ops(w)
    ids = [f"t{i}" for i in range(sim.pick("w", [1, 2]))]
    w.default_plan = Plan((0, 20_000) if inline else (0, 300_000, 1_500_000))
    E = (TaskLookupError, ConflictIdError, MaximumInstancesError)
    specs = {}
    for tid in ids:
        t, r = new_trigger(sim, w.wall())
        k = ops.ref(r)
        co = sim.pick("w", [False, True])
        kw, extra = {}, {}
        if sim.chance("w", 25):
            kw, extra = {"next_run_time": None}, {"next": None}
        mx = sim.pick("w", [50, 50, 1, 2])
        ops.call("add", tid, lambda: s.add_task(taskfns.job, t, args=[tid], id=tid, name="n0", coalesce=co,
                                                mistrigger_grace_time=None, max_instances=mx, **kw), E,
                 ref=k, co=co, val="n0", **extra)
    style_for_run(sim, calm=20)
    # a backlog may build up before the scheduler starts or while it is paused
    sim.sleep(sim.pick("w", [0, 0, 4 * US]))
    t_start = w.wall()
    h.start()
    for o in ops.ops:          # the first run time of a task added before the start is computed at the start
        o.t1 = w.wall()
        o.s1 = w.seq()
    paused = sim.chance("w", 25)
    if paused:
        s.pause()

    def do(stream, tid):
        a = sim.wpick(stream, [(6, "run"), (2, "noforce"), (2, "keep"), (2, "pause"), (2, "resume"), (1, "delete"),
                               (1, "update"), (1, "val")])
        if a in ("run", "noforce", "keep"):
            kw = {"run": {}, "noforce": {"force": False}, "keep": {"remove_finished": False}}[a]
            ops.call("run", tid, lambda: h.run_task(tid, **kw), E, force=a != "noforce", remove=a != "keep")
        elif a == "pause":
            ops.call("pause", tid, lambda: s.pause_task(tid), E)
        elif a == "resume":
            ops.call("resume", tid, lambda: s.resume_task(tid), E)
        elif a == "delete":
            ops.call("delete", tid, lambda: s.delete_task(tid), E)
        elif a == "update":
            x = w.wall() + sim.pick(stream, [1 * US, 500_000, 3 * US, -1 * US])
            ops.call("update", tid, lambda: s.update_task(tid, next_run_time=from_us(x)), E, next=x)
        else:
            v = f"n{sim.fresh()}"
            ops.call("update", tid, lambda: s.update_task(tid, name=v), E, val=v)

    def client(k):
        for _ in range(sim.rint("w", 2, 6)):
            sim.sleep(sim.pick("w", [400_000, 50_000, 1 * US, 900_000, 2 * US, 3 * US]))
            do("w", sim.pick("w", ids))
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 2, 3]))]
    for t in ths:
        sim.join(t)
    if paused and sim.chance("w", 70):
        s.resume()
        paused = False
    sim.sleep(sim.pick("w", [500_000, 3 * US, 8 * US]))
    t_end = quiesce(w, h, 1)
    s.pause()
    if paused:
        t_end = None
    sim.sleep(400_000)
    attach_runs(w, ops.ops)
    man = sorted((x for x in w.subs if x.manual), key=lambda x: x.s0)
    used = [x for o in ops.ops for x in o.subs]
    if len(used) != len(man) or len({x.n for x in used}) != len(used):
        w.fail("count", f"{len(man)} manual hand-overs but the run calls account for {len(used)}")
    for o in ops.ops:
        if o.kind != "run":
            continue
        if not o.subs and (o.exc == "MaximumInstancesError" or (o.exc is None and o.a["force"])):
            w.fail("nothing", f"{o} ended without a hand-over")
        evs = [e for e in w.events if e.thread == o.thread and o.s0 < e.seq < o.s1 and e.task_id == o.task
               and e.code in (EV.TASK_SUBMITTED, EV.TASK_MAX_INSTANCES) and e.event.source == "manual"]
        if len(evs) != len(o.subs):
            w.fail("events", f"{o}: {len(o.subs)} hand-overs reported by {evs}")
        for e, x in zip(evs, o.subs):
            if e.times != x.times or (e.code == EV.TASK_SUBMITTED) != (x.result == "ok"):
                w.fail("event_kind", f"{o}: hand-over {x} reported as {e}")
            if e.event.store != "default" or e.event.scheduler_identity != "s":
                w.fail("event_fields", f"{o}: reported for store {e.event.store} by {e.event.scheduler_identity}")
            if x.t0 - o.t0 > (o.t1 - o.t0):
                w.fail("immediate", f"{o}: handed over late")
    for e in w.events:
        if e.code in (EV.TASK_SUBMITTED, EV.TASK_MAX_INSTANCES) and e.event.source != "manual" and \
                not any(x.times == e.times and x.task_id == e.task_id and not x.manual for x in w.subs):
            w.fail("source", f"{e} is reported as {e.event.source} but was a manual run")
    for tid in ids:
        t = s.get_task(tid)
        fin = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and x.result in ("ok", "max")]
        check_task(w, ops.refs, tid, "default", my, atts, fin, t_end)
    calls = len(w.calls)
    acc = sum(len(x.times) for x in w.subs if x.result == "ok")
    if calls > acc:
        w.fail("calls", f"{calls} calls for {acc} submitted run times")
    sim.probe("manual", len(man))
    sim.probe("refused", sum(x.result == "max" for x in man))
    sim.probe("scheduled", len(w.subs) - len(man))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"executor": kind, "ops": [repr(o) for o in ops.ops], "handovers": len(w.subs)}
