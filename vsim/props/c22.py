"""C22 Inspection never changes anything and previews what will really run."""
from asyncz.enums import TaskScheduleState
from asyncz.triggers import AndTrigger, OrTrigger

from ..kernel import US
from ..refmodel import RAnd, ROr
from ..seqspec import Ops, check_task, firsts
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB
from .c23 import aligned, endless

ID = "C22"
RUNS_QUICK = 3500
RUNS_THOROUGH = 200000
WALL_QUICK = 200
LEVEL = "exploration"

SORTS = ["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"]


def static(i):
    """What an inspection says about a task besides its place in the schedule."""
    return (i.id, i.name, i.callable_name, i.callable_reference, i.trigger_alias, i.trigger_name, i.trigger_description,
            i.executor, i.store_alias, repr(i.args), repr(sorted(i.kwargs.items())), i.coalesce, i.max_instances,
            i.mistrigger_grace_time)


def sort_value(i, by):
    inf = (i.next_run_time is None, to_us(i.next_run_time) if i.next_run_time else 0)
    return {"id": (i.id or "").lower(), "name": (i.name or "").lower(), "next_run_time": inf,
            "schedule_state": i.schedule_state.value, "executor": (i.executor or "").lower(),
            "store": (i.store_alias or "").lower(), "trigger": (i.trigger_alias or i.trigger_name or "").lower()}[by]


def check_infos(w, infos, kw):
    """A filtered and sorted listing on its own."""
    ids = [(i.store_alias, i.id) for i in infos]
    if len(set(ids)) != len(ids):
        w.fail("twice", f"a listing shows a task twice: {ids}")
    for i in infos:
        st = i.schedule_state
        if (st is TaskScheduleState.PENDING) != i.pending or (st is TaskScheduleState.PAUSED) != i.paused or \
                st is TaskScheduleState.PAUSED and i.next_run_time is not None or \
                st is TaskScheduleState.SCHEDULED and i.next_run_time is None:
            w.fail("state", f"a snapshot contradicts itself: {i}")
        if not matches(i, kw):
            w.fail("filter", f"a listing with {kw} shows {i}")
    if "sort_by" in kw:
        vals = [sort_value(i, kw["sort_by"]) for i in infos]
        if vals != sorted(vals, reverse=bool(kw.get("descending"))):
            w.fail("sort", f"a listing with {kw} is in the order {vals}")


def matches(i, kw):
    if kw.get("store") and i.store_alias != kw["store"]:
        return False
    if kw.get("schedule_state") and i.schedule_state.value != str(getattr(kw["schedule_state"], "value",
                                                                          kw["schedule_state"])).strip().lower():
        return False
    if kw.get("executor") and i.executor != kw["executor"]:
        return False
    if kw.get("trigger") and kw["trigger"].strip().lower() not in ((i.trigger_alias or "").lower(),
                                                                   (i.trigger_name or "").lower()):
        return False
    q = (kw.get("q") or "").strip().lower()
    if q:
        text = [i.id, i.name, i.callable_name, i.callable_reference, i.trigger_alias, i.trigger_name, i.trigger_description,
                i.executor, i.store_alias, i.schedule_state.value]
        if not any(q in (x or "").lower() for x in text):
            return False
    return True


def check_info(w, i):
    """A scheduler snapshot on its own."""
    stopped = i.state_label == "stopped"
    bad = []
    if i.state.name.lower() != f"state_{i.state_label}":
        bad.append("label")
    if i.running is stopped if hasattr(i, "running") else i.active is stopped:
        bad.append("running")
    if (i.started_at is None) is not stopped:
        bad.append("started_at")
    if (i.uptime_seconds is None) is not stopped:
        bad.append("uptime")
    if i.scheduled_task_count + i.paused_task_count + i.pending_task_count != i.task_count:
        bad.append("counts")
    if stopped and i.pending_task_count != i.task_count:
        bad.append("a stopped scheduler has tasks which are not pending")
    if not stopped and i.pending_task_count:
        bad.append("a running scheduler has pending tasks")
    if bad:
        w.fail("info", f"a scheduler snapshot contradicts itself ({', '.join(bad)}): {i}")


def run(sim):
    w = World(sim, ID)
    if sim.chance("w", 25):
        return run_lifecycle(sim, w)
    aliases = ["default", "b"][:sim.pick("w", [1, 2])]
    kinds = {a: sim.wpick("w", STORES) for a in aliases}
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:sim.pick("w", [1, 2])]}
    inline = "debug" in ek.values()
    h = Host(w, sim.wpick("w", MODES), stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
             executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {}))
                        for a, k in ek.items()})
    s = h.sched
    w.default_plan = Plan((0, 20_000) if inline else (0, 300_000))
    ops = Ops(w)
    specs, by, known = [], {}, {}
    for i in range(sim.pick("w", [1, 2, 3])):
        sp = gen_spec(sim, i, w.wall(), ek, aliases, graces=(None, 1))
        if sim.chance("w", 25):
            parts = [aligned(sim, w.wall()) for _ in range(2)]
            kind = sim.pick("w", ["or", "and"])
            r = (ROr if kind == "or" else RAnd)([p[1] for p in parts])
            if not endless(r, w.wall()):
                sp.trigger = (OrTrigger if kind == "or" else AndTrigger)(triggers=[p[0] for p in parts])
                sp.ref, sp.desc, sp.explicit = r, kind + str([p[2] for p in parts]), None
        sp.ref.desc = sp.desc
        specs.append(sp)
        by[sp.id] = sp
    # a paused one, whose preview says what it would run after a resume
    pz = gen_spec(sim, 90, w.wall(), ek, aliases, explicit=False)
    pz.id, pz.paused = "pz", True
    # two tasks which are changed one after the other: a listing is one moment
    pair = [sim.pick("w", aliases) for _ in range(2)]
    style_for_run(sim, calm=30)
    h.start()
    for sp in specs:
        k = ops.ref(sp.ref)
        ops.call("add", sp.id, lambda: sp.add(s, w.wall), (), store=sp.store, ref=k, co=sp.coalesce, val=None,
                 **({"next": sp.explicit} if sp.explicit is not None else {}))
        t = s.get_task_info(sp.id, sp.store)
        if t is not None:
            known[sp.id] = static(t)
            if (t.id, t.executor, t.store_alias, t.coalesce, t.max_instances, t.mistrigger_grace_time, t.args) != \
                    (sp.id, sp.executor, sp.store, sp.coalesce, sp.max_instances, sp.grace, (sp.id,)):
                w.fail("snapshot", f"{sp} is shown as {t}")
    pz.add(s, w.wall)
    for k in range(2):
        s.add_task(taskfns.plain, "interval", seconds=100_000, id=f"p{k}", name="0", store=pair[k], kwargs={"v": [0]},
                   next_run_time=None if k else from_us(w.wall() + 90_000 * US))
    flap = [None]      # number of seqs: (begin, end, present after)
    flaps = []
    stop = [False]
    previews = []

    def writer():
        """p0 is renamed to n before p1 is; the task `flap` comes and goes."""
        for n in range(1, sim.rint("w", 2, 6)):
            sim.sleep(sim.pick("w", [1, 300_000, 1 * US]))
            for k in range(2):
                s.update_task(f"p{k}", pair[k], name=str(n))
            if flap[0] is None:
                s.add_task(taskfns.plain, "interval", seconds=100_000, id="flap", store=aliases[-1])
                flap[0] = 1
            else:
                s.delete_task("flap")
                flap[0] = None

    def note_infos(o, infos, kw):
        """What a complete listing says about every task, as one read per task."""
        check_infos(w, infos, kw)
        seen = {i.id: i for i in infos}
        if len(kw) - ("sort_by" in kw) - ("descending" in kw) == 0:
            for sp in specs:
                i = seen.get(sp.id)
                ops.also(o, "getn", sp.id, None if i is None else (to_us(i.next_run_time) if i.next_run_time else None,))
            if "p0" not in seen or "p1" not in seen or "pz" not in seen:
                w.fail("missing", f"a listing does not show the paused tasks: {sorted(seen)}")
            a, b = int(seen["p0"].name), int(seen["p1"].name)
            if not b <= a <= b + 1:
                w.fail("moment", f"a listing shows p0 after change {a} and p1 after change {b}: that was never so")
        for i in infos:
            if i.id in known and static(i) != known[i.id]:
                w.fail("snapshot", f"{i.id} was {known[i.id]}, is shown as {static(i)}")
            if i.id == "pz" and (i.next_run_time is not None or i.schedule_state is not TaskScheduleState.PAUSED):
                w.fail("paused", f"a paused task is shown as {i}")
            # a snapshot is detached: whoever changes it changes nothing else
            i.kwargs["x"] = 1

    def gen_filter():
        kw = {}
        if sim.chance("w", 60):
            kw["sort_by"] = sim.pick("w", SORTS)
            kw["descending"] = sim.pick("w", [False, True])
        if sim.chance("w", 60):
            for _ in range(sim.pick("w", [1, 1, 2])):
                f = sim.pick("w", ["store", "schedule_state", "executor", "trigger", "q"])
                kw[f] = sim.pick("w", {"store": aliases + ["nope"], "executor": sorted(ek) + ["nope"],
                                       "schedule_state": ["scheduled", "PAUSED", TaskScheduleState.PENDING, " paused "],
                                       "trigger": ["interval", "CronTrigger", "date", "or", "never"],
                                       "q": ["T0", "every", "job", " paused", "vsim.taskfns", "zzz", "p", "def"]}[f])
        return kw

    def inspector(k):
        me = sim.cur
        for _ in range(sim.rint("w", 3, 9)):
            sim.sleep(sim.pick("w", [1, 100_000, 400_000, 1 * US, 2 * US]))
            s0 = w.seq()
            a = sim.wpick("w", [(3, "infos"), (2, "filtered"), (2, "info"), (3, "preview"), (1, "task_info"), (1, "bad")])
            if a == "infos":
                kw = {"sort_by": sim.pick("w", SORTS), "descending": bool(sim.pick("w", [0, 1]))} if sim.chance("w", 50) else {}
                o = ops.call("list", "*", lambda: s.get_task_infos(**kw))
                note_infos(o, o.res, kw)
            elif a == "filtered":
                kw = gen_filter()
                o = ops.call("list", "*", lambda: s.get_task_infos(**kw))
                note_infos(o, o.res, kw)
            elif a == "info":
                i = s.get_scheduler_info() if sim.chance("w", 60) else s.get_scheduler_instance_infos()[0]
                check_info(w, i)
                if not 3 <= i.task_count <= 4 + len(specs) or not 2 <= i.paused_task_count <= 2 + len(specs):
                    w.fail("counts", f"scheduler info counts {i.task_count} tasks ({i.paused_task_count} paused)")
                if i.store_aliases != tuple(sorted(aliases)) or not set(ek) <= set(i.executor_aliases):
                    w.fail("aliases", f"scheduler info shows {i}")
            elif a == "preview":
                sp = sim.pick("w", specs + [pz])
                n = sim.pick("w", [1, 2, 5, 50])
                o = ops.call("list", "*", lambda: s.preview_task_runs(sp.id, sp.store, count=n))
                previews.append((sp, n, o))
                if o.res is not None:
                    i = o.res.task
                    if i.id in known and static(i) != known[i.id]:
                        w.fail("snapshot", f"a preview shows {static(i)}, the task is {known[i.id]}")
                    if sp is not pz:
                        ops.also(o, "getn", sp.id, (to_us(i.next_run_time) if i.next_run_time else None,))
                        if o.res.run_times and to_us(o.res.run_times[0]) != to_us(i.next_run_time):
                            w.fail("preview", f"{sp}: the preview starts with {o.res.run_times[0]}, the task it shows is due "
                                              f"at {i.next_run_time}")
                else:
                    ops.also(o, "getn", sp.id, None)
            elif a == "task_info":
                sp = sim.pick("w", specs)
                o = ops.call("list", "*", lambda: s.get_task_info(sp.id, sp.store))
                ops.also(o, "getn", sp.id, None if o.res is None else
                         (to_us(o.res.next_run_time) if o.res.next_run_time else None,))
                if o.res is not None:
                    o.res.kwargs["x"] = 1
                if s.get_task_info("ghost") is not None or s.get_task_info(sp.id, "nope") is not None:
                    w.fail("ghost", "a snapshot of a task which does not exist")
            else:
                c = sim.pick("w", [lambda: s.get_task_infos(sort_by="colour"), lambda: s.get_task_infos(schedule_state="idle"),
                                   lambda: s.preview_task_runs("t0", count=0), lambda: s.preview_task_runs("t0", count=51)])
                try:
                    c()
                except ValueError:
                    pass
                else:
                    w.fail("accepted", "an invalid inspection was answered")
            for e in w.events:
                if e.seq > s0 and e.thread == me.name:
                    w.fail("event", f"an inspection emitted {e}")
    ths = [sim.spawn(lambda k=k: inspector(k), name=f"inspector{k}") for k in range(sim.pick("w", [1, 2, 3]))]
    if sim.chance("w", 70):
        ths.append(sim.spawn(writer, name="writer"))
    for t in ths:
        sim.join(t)
    stop[0] = True
    sim.sleep(sim.pick("w", [0, 3 * US, 10 * US]))
    t_end = quiesce(w, h, 2)
    h.sched.pause()
    sim.sleep(400_000)
    # ------------------------------------------------ nothing has changed
    for sp in specs:
        t = s.get_task(sp.id, sp.store)
        if t is not None and t.kwargs:
            w.fail("detached", f"changing a snapshot changed task {sp.id}: {t.kwargs}")
        final = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, None)
        my = [o for o in ops.ops if o.task == sp.id]
        atts = [x for x in w.subs if x.task_id == sp.id and x.result in ("ok", "max")]
        check_task(w, ops.refs, repr(sp), sp.store, my, atts, final, t_end)
        check_schedule(w, sp, t_end, "gone" if t is None else final[0])
    if [x for x in w.subs if x.task_id in ("p0", "p1", "pz", "flap")]:
        w.fail("ran", "inspecting a task made it run")
    # ------------------------------------------------ what the previews said is what was submitted
    for sp, n, o in previews:
        if o.res is None:
            continue
        got = [to_us(x) for x in o.res.run_times]
        if len(got) > n or o.res.requested_count != n:
            w.fail("preview", f"{sp}: a preview of {n} runs lists {len(got)}")
        if len(got) < n and not o.res.exhausted:
            w.fail("preview", f"{sp}: a preview of {n} runs lists {len(got)} but the schedule is not exhausted")
        if sp is pz:
            cand = firsts(sp.ref, o.t0, o.t1)
            start = got[0] if got else None
            if start not in cand:
                w.fail("preview", f"paused {sp}: the preview starts with {w.rel(start)}, a resume then would start with "
                                  f"{[w.rel(x) for x in cand]}")
            nxt = start
        else:
            nxt = to_us(o.res.task.next_run_time) if o.res.task.next_run_time else None
        want = []
        while nxt is not None and len(want) < n:
            want.append(nxt)
            nxt = sp.ref.after(nxt)
        if got != want or o.res.exhausted != (nxt is None):
            w.fail("preview", f"{sp}: the preview lists {[w.rel(x) for x in got]} exhausted={o.res.exhausted}, the schedule "
                              f"is {[w.rel(x) for x in want]} exhausted={nxt is None}")
        if sp is pz:
            continue
        later = [t for x in w.subs if x.task_id == sp.id and x.s0 > o.s1 for t in x.times]
        lost = [t for t in later if t <= (got[-1] if got else 0) and t not in got]
        if lost or not got and later or o.res.exhausted and any(t > got[-1] for t in later):
            w.fail("preview_runs", f"{sp}: the preview at {w.rel(o.t0)} lists {[w.rel(x) for x in got]} (exhausted "
                                   f"{o.res.exhausted}), submitted afterwards were {[w.rel(x) for x in later]}")
        if not sp.coalesce:
            miss = [t for t in got if t <= t_end - 1 * US and t not in later and not any(
                t in x.times for x in w.subs if x.task_id == sp.id)]
            if miss:
                w.fail("preview_runs", f"{sp}: {[w.rel(x) for x in miss]} of the preview at {w.rel(o.t0)} was not submitted")
    sim.probe("previews", len(previews))
    sim.probe("inspections", len(ops.ops))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"stores": kinds, "executors": ek, "previews": len(previews), "ops": len(ops.ops)}


def run_lifecycle(sim, w):
    """Snapshots of a scheduler which is started, paused, resumed and shut down meanwhile."""
    kinds = {"default": sim.wpick("w", STORES)}
    h = Host(w, sim.wpick("w", MODES), stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
             executors={"default": w.make_executor(sim.pick("w", ["asyncio", "thread"]))})
    s = h.sched
    for k in range(sim.rint("w", 0, 2)):
        s.add_task(taskfns.plain, "interval", seconds=100_000, id=f"p{k}")
    style_for_run(sim, calm=10)
    stop = [False]
    n = [0]

    def inspector():
        while not stop[0]:
            a = sim.pick("w", ["info", "instance", "infos"])
            if a == "info":
                check_info(w, s.get_scheduler_info())
            elif a == "instance":
                i = s.get_scheduler_instance_infos()[0]
                check_info(w, i)
                if i.active is i.stale:
                    w.fail("info", f"active and stale contradict each other: {i}")
            else:
                infos = s.get_task_infos()
                check_infos(w, infos, {})
                if len({i.pending for i in infos}) > 1:
                    w.fail("moment", f"a listing shows pending and started tasks: {infos}")
            n[0] += 1
            sim.sleep(sim.pick("w", [1, 1000, 50_000, 300_000]))
    ths = [sim.spawn(inspector, name=f"inspector{k}") for k in range(sim.pick("w", [1, 2]))]
    for _ in range(sim.rint("w", 1, 3)):
        sim.sleep(sim.pick("w", [0, 20_000, 400_000]))
        h.start(sim.chance("w", 30))
        for _ in range(sim.rint("w", 0, 4)):
            sim.sleep(sim.pick("w", [0, 20_000, 400_000]))
            sim.pick("w", [s.pause, s.resume])()
        sim.sleep(sim.pick("w", [0, 20_000, 400_000]))
        h.shutdown(wait=bool(sim.pick("w", [0, 1])))
        if sim.chance("w", 50):
            s.add_task(taskfns.plain, "interval", seconds=100_000, id=f"q{sim.fresh()}")
    sim.sleep(300_000)
    stop[0] = True
    for t in ths:
        sim.join(t)
    calm_down(sim)
    h.stop_app()
    w.close()
    sim.probe("lifecycle_inspections", n[0])
    return {"mode": "lifecycle", "stores": kinds, "inspections": n[0]}
