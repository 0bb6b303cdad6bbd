"""C05 Pause, resume, reschedule, update and delete take effect when they return."""
from ..kernel import US
from ..seqspec import Ops, attach_runs, check_task
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C05"
RUNS_QUICK = 6000
RUNS_THOROUGH = 300000
WALL_QUICK = 200
LEVEL = "exploration"


def new_trigger(sim, now, kinds=("interval", "cron", "date")):
    t, r, d = gen_trigger(sim, now, kinds, past=sim.chance("w", 30))
    r.desc = d
    return t, r


def run(sim):
    w = World(sim, ID)
    ek = {"default": sim.wpick("w", EXECS)}
    kind = ek["default"]
    inline = kind == "debug"
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store(sim.wpick("w", STORES))},
             executors={"default": w.make_executor(kind)})
    ops = Ops(w)
    ids = [f"t{i}" for i in range(sim.pick("w", [1, 2, 3]))]
    w.default_plan = Plan((0, 20_000) if inline else (0, 300_000))
    style_for_run(sim, calm=15)
    h.start()

    def do(stream, tid, which=None):
        """One management call on tid."""
        s = h.sched
        a = which or sim.wpick(stream, [(4, "pause"), (4, "resume"), (3, "reschedule"), (3, "update"), (2, "delete"),
                                        (3, "add"), (2, "trigger"), (1, "co"), (1, "replace"), (2, "val")])
        E = (TaskLookupError, ConflictIdError)
        if a == "pause":
            ops.call("pause", tid, lambda: s.pause_task(tid), E)
        elif a == "resume":
            ops.call("resume", tid, lambda: s.resume_task(tid), E)
        elif a == "delete":
            ops.call("delete", tid, lambda: s.delete_task(tid), E)
        elif a in ("reschedule", "trigger"):
            t, r = new_trigger(sim, w.wall())
            k = ops.ref(r)
            if a == "reschedule":
                ops.call("reschedule", tid, lambda: s.reschedule_task(tid, trigger=t), E, ref=k)
            else:
                ops.call("update", tid, lambda: s.update_task(tid, trigger=t), E, ref=k)
        elif a == "update":
            x = w.wall() + sim.pick(stream, [1 * US, 500_000, 3 * US, -1 * US])
            ops.call("update", tid, lambda: s.update_task(tid, next_run_time=from_us(x)), E, next=x)
        elif a == "co":
            c = sim.pick(stream, [True, False])
            ops.call("update", tid, lambda: s.update_task(tid, coalesce=c), E, co=c)
        elif a == "val":
            v = f"n{sim.fresh()}"
            ops.call("update", tid, lambda: s.update_task(tid, name=v), E, val=v)
        else:
            t, r = new_trigger(sim, w.wall())
            k = ops.ref(r)
            co = sim.pick(stream, [False, True])
            v = f"n{sim.fresh()}"
            kw = {}
            extra = {}
            m = sim.pick(stream, [0, 0, 1])
            if m == 1:
                kw = {"next_run_time": None}
                extra = {"next": None}
            ops.call("add", tid, lambda: s.add_task(taskfns.job, t, args=[tid], id=tid, name=v, coalesce=co,
                                                    mistrigger_grace_time=None, max_instances=50,
                                                    replace_existing=a == "replace", **kw), E,
                     ref=k, co=co, val=v, replace=a == "replace", **extra)
    for tid in ids:
        do("w", tid, "add")

    def hook(c):
        if sim.chance("x", 12):
            do("x", sim.pick("x", ids), sim.pick("x", ["pause", "delete", "resume", "update", "val", "reschedule"]))

    hooked = sim.chance("w", 50)
    if hooked:
        w.default_plan.hook = hook

    def client(k):
        for _ in range(sim.rint("w", 2, 7)):
            sim.sleep(sim.pick("w", [400_000, 50_000, 1 * US, 900_000, 2 * US, 3 * US]))
            do("w", sim.pick("w", ids))
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 2, 2, 3]))]
    for t in ths:
        sim.join(t)
    sim.sleep(sim.pick("w", [500_000, 3 * US]))
    t_end = quiesce(w, h, 1)
    w.default_plan.hook = None
    # one quick look with the scheduler paused, so that reading is consistent
    h.sched.pause()
    sim.sleep(400_000)
    finals = {}
    for tid in ids:
        t = h.sched.get_task(tid)
        finals[tid] = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
    attach_runs(w, ops.ops)
    for tid in ids:
        my = [o for o in ops.ops if o.task == tid]
        atts = [s for s in w.subs if s.task_id == tid and not s.manual and s.result in ("ok", "max")]
        check_task(w, ops.refs, tid, "default", my, atts, finals[tid], t_end)
    sim.probe("calls", len(ops.ops))
    sim.probe("handovers", len(w.subs))
    sim.probe("refused", sum(o.exc is not None for o in ops.ops))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"executor": kind, "ops": [repr(o) for o in ops.ops], "handovers": len(w.subs)}
