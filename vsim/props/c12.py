"""C12 The management API is safe to call from any thread at any time."""
from ..kernel import US, SimKilled, Violation
from ..seqspec import GONE, Ops, attach_runs, check_task
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB
from .c05 import new_trigger

ID = "C12"
RUNS_QUICK = 3500
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"

LOOKUP = (TaskLookupError,)
KINDS = [(5, "add"), (2, "replace"), (4, "pause"), (4, "resume"), (3, "reschedule"), (3, "update"), (2, "val"), (2, "both"),
         (3, "delete"), (4, "run"), (1, "noforce"), (3, "get"), (4, "list"), (2, "infos"), (2, "info"), (2, "preview"),
         (1, "sched"), (1, "clear"), (2, "mount"), (2, "unmount"), (1, "addex"), (1, "rmex"), (2, "listener"),
         (1, "spause"), (1, "wrong"), (1, "alias")]


def idle_mount(sim):
    """A store with due tasks is mounted on (or its task revived in) a scheduler with nothing else to do."""
    w = World(sim, ID)
    kind = sim.wpick("w", [x for x in STORES if x[1] != "memory"])
    ek = sim.wpick("w", EXECS)
    h = Host(w, sim.wpick("w", MODES), executors={"default": w.make_executor(ek)})
    s = h.sched
    w.default_plan = Plan((0, 20_000))
    h.start()
    for _ in range(sim.rint("w", 1, 3)):
        style_for_run(sim, calm=30)
        s.add_store(w.make_store(kind, where="p"), "p")
        if sim.chance("w", 40):
            sim.sleep(sim.pick("w", [3 * US, 300_000]))
        tr = sim.pick("w", ["interval", "interval", "date"])
        when = w.wall() + 20 * US
        kw = {"seconds": 2} if tr == "interval" else {"run_at": from_us(when)}
        s.add_task(taskfns.job, tr, args=["m"], id="m", store="p", mistrigger_grace_time=None, coalesce=True,
                   replace_existing=True, **kw)
        parked = sim.pick("w", [False, False, True])
        if parked:
            s.pause_task("m")
        else:
            s.remove_store("p")
        sim.sleep(30 * US if tr == "date" else sim.pick("w", [9 * US, 30 * US]))
        b = w.seq()
        t = w.wall()
        if parked:
            s.update_task("m", next_run_time=from_us(t - 1 * US))
        else:
            s.add_store(w.make_store(kind, where="p"), "p")
        late = 2 * sim.stall_max_us if sim.style and sim.stalls else sim.stall_max_us if sim.timer_late_p else 0
        calm_down(sim)
        sim.sleep(3_100_000 + late)
        got = [x for x in w.subs if x.s0 > b and x.task_id == "m" and x.result == "ok"]
        if not got:
            w.fail("not_woken", f"task m was overdue when {'it was given a run time' if parked else 'its store was added'}"
                                f" at {w.rel(t)}; nothing was submitted until {w.rel(w.wall())}")
        s.remove_store("p")
    sim.probe("idle_mounts", 1)
    sim.probe("handovers", len(w.subs))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"executor": ek, "store": kind, "handovers": len(w.subs)}


def lifecycle(sim):
    """Clients manage tasks, stores and executors of their own while other threads start the scheduler."""
    w = World(sim, ID)
    ek = sim.wpick("w", EXECS)
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store(sim.wpick("w", STORES), where="default")},
             executors={"default": w.make_executor(ek)})
    s = h.sched
    w.default_plan = Plan((0, 20_000))
    style_for_run(sim, calm=10)
    alive, dead, calls = {}, {}, [0]

    def guarded(what, fn):
        calls[0] += 1
        try:
            return fn()
        except (SimKilled, Violation):
            raise
        except Exception as e:
            w.fail("undocumented", f"{what} raised {type(e).__name__}: {e}")

    def starter(k):
        sim.sleep(sim.pick("w", [0, 0, 1000, 100_000]))
        started.append(guarded("start", lambda: h.start(paused)))

    def client(k):
        mine, stores, exs = {}, [], []
        for i in range(sim.rint("w", 3, 7)):
            if sim.chance("w", 40):
                sim.sleep(sim.pick("w", [1000, 50_000, 400_000]))
            a = sim.wpick("w", [(6, "add"), (3, "del"), (2, "get"), (1, "list"), (2, "store"), (2, "ex"), (1, "unstore"),
                                (2, "unex"), (2, "upd")])
            free = [x for x in stores if all(m[0] != x for m in mine.values())]
            freex = [x for x in exs if all(m[1] != x for m in mine.values())]
            tid = sim.pick("w", sorted(mine)) if mine else None
            if a == "add":
                tid = f"c{k}_{i}"
                st, ex = sim.pick("w", ["default", *stores]), sim.pick("w", ["default", *exs])
                guarded(f"add_task({tid})", lambda: s.add_task(
                    taskfns.job, "interval", seconds=2, args=[tid], id=tid, store=st, executor=ex, coalesce=True,
                    mistrigger_grace_time=None, max_instances=50))
                mine[tid] = alive[tid] = (st, ex)
            elif a == "store":
                al = f"s{k}_{i}"
                kind = sim.wpick("w", STORES)
                guarded("add_store", lambda: s.add_store(w.make_store(kind, where=al), al))
                stores.append(al)
            elif a == "ex":
                al = f"e{k}_{i}"
                kind = sim.wpick("w", EXECS[:3])
                guarded("add_executor", lambda: s.add_executor(w.make_executor(kind), al))
                exs.append(al)
            elif a == "unstore" and free:
                guarded("remove_store", lambda: s.remove_store(free[-1]))
                stores.remove(free[-1])
            elif a == "unex" and freex:
                guarded("remove_executor", lambda: s.remove_executor(freex[-1]))
                exs.remove(freex[-1])
            elif a == "del" and tid:
                guarded(f"delete_task({tid})", lambda: s.delete_task(tid))
                dead[tid] = w.seq()
                del mine[tid], alive[tid]
                if guarded("get_task", lambda: s.get_task(tid)) is not None:
                    w.fail("found", f"{tid} is found although it was deleted")
            elif a == "upd" and tid:
                guarded(f"update_task({tid})", lambda: s.update_task(tid, name=f"n-{tid}"))
                t = guarded("get_task", lambda: s.get_task(tid, mine[tid][0]))
                if t is None or t.name != f"n-{tid}":
                    w.fail("update_lost", f"{tid} is {t and t.name!r} after its name was changed")
            elif a == "get" and tid:
                t = guarded("get_task", lambda: s.get_task(tid, sim.pick("w", [None, mine[tid][0]])))
                if t is None:
                    w.fail("lost", f"{tid} is not found although it was added")
            elif a == "list":
                ids_ = [i.id for i in guarded("get_task_infos", s.get_task_infos)]
                guarded("get_scheduler_info", s.get_scheduler_info)
                if len(ids_) != len(set(ids_)) or not set(mine) <= set(ids_):
                    w.fail("lost", f"a listing shows {ids_}, the tasks {sorted(mine)} were added")

    paused = sim.chance("w", 15)
    started = []
    ths = [sim.spawn(lambda k=k: starter(k), name=f"starter{k}") for k in range(sim.pick("w", [1, 1, 1, 2]))]
    ths += [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [2, 1, 2, 3]))]
    for t in ths:
        sim.join(t)
    if h.mode == "thread" and sorted(started, key=bool) != [False] * (len(started) - 1) + [True]:
        w.fail("start", f"{len(started)} calls of start returned {started}")
    if paused:
        guarded("resume", s.resume)
    quiesce(w, h, 3)
    infos = {i.id for i in s.get_task_infos()}
    for tid, (st, ex) in alive.items():
        if tid not in infos or s.get_task(tid, st) is None:
            w.fail("lost", f"{tid} was added to {st} and is gone after the start (tasks: {sorted(infos)})")
        if not [x for x in w.subs if x.task_id == tid and x.result == "ok" and x.store == st and x.ex == ex]:
            w.fail("lost", f"{tid} (every 2 s) was never submitted")
    for tid in dead:
        if tid in infos:
            w.fail("found", f"{tid} was deleted and is listed")
        late = [x for x in w.subs if x.task_id == tid and x.s0 > dead[tid]]
        if late:
            w.fail("deleted_ran", f"{late} after {tid} was deleted")
    if infos - set(alive):
        w.fail("phantom", f"unknown tasks {sorted(infos - set(alive))}")
    sim.probe("calls", calls[0])
    sim.probe("lifecycles", 1)
    sim.probe("handovers", len(w.subs))
    for _ in started:
        h.shutdown(wait=False, settle=False)
    h.settle()
    h.stop_app()
    w.close()
    return {"executor": ek, "alive": len(alive), "handovers": len(w.subs)}


def run(sim):
    variant = sim.pick("w", [0, 0, 0, 0, 0, 0, 1, 1, 2])
    if variant:
        return lifecycle(sim) if variant == 1 else idle_mount(sim)
    w = World(sim, ID)
    ek = sim.wpick("w", EXECS)
    inline = ek == "debug"
    kinds = {"default": sim.wpick("w", STORES), "dyn": sim.pick("w", ["memory", "memory", "sql", "file"])}
    two = sim.chance("w", 40)
    if two:
        kinds["other"] = sim.wpick("w", STORES)
    h = Host(w, sim.wpick("w", MODES), stores={a: w.make_store(k, where=a) for a, k in kinds.items() if a != "dyn"},
             executors={"default": w.make_executor(ek)})
    s = h.sched
    dex = sim.wpick("w", EXECS)
    ops = Ops(w)
    home = {"t0": "default", "t1": "other" if two else "default", "d0": "dyn", "x0": "default"}
    ids = ["t0", "t1", "d0", "x0"]
    lin = ["t0", "t1", "d0"]
    w.default_plan = Plan((0, 20_000) if inline or dex == "debug" else (0, 300_000))
    heard = []
    listeners = []
    exlog = []            # (begin seq, end seq, what) of changes of the executor "dynex"
    style_for_run(sim, calm=15)
    h.start()
    if sim.chance("w", 50):
        o = ops.call("mount", "d0", lambda: s.add_store(w.make_store(kinds["dyn"], where="dyn"), "dyn"),
                     keeps=kinds["dyn"] != "memory")

    def store_arg(stream, tid):
        return sim.pick(stream, [None, None, home[tid]])

    def guarded(what, fn, expected=()):
        try:
            return fn()
        except (SimKilled, Violation):
            raise
        except expected as e:
            return e
        except Exception as e:
            w.fail("undocumented", f"{what} raised {type(e).__name__}: {e}")

    def call(kind, tid, fn, expected=(), **a):
        try:
            return ops.call(kind, tid, fn, expected, **a)
        except (SimKilled, Violation):
            raise
        except Exception as e:
            w.fail("undocumented", f"{kind}({tid}) raised {type(e).__name__}: {e}")

    def snap(infos):
        out = {}
        for i in infos:
            if i.id in out:
                w.fail("duplicate", f"a listing shows {i.id} twice: {[j.id for j in infos]}")
            out[i.id] = (to_us(i.next_run_time) if i.next_run_time else None, i.name)
        return out

    def do(stream, which=None, tid=None):
        a = which or sim.wpick(stream, KINDS)
        tid = tid or sim.pick(stream, ids)
        st = store_arg(stream, tid)
        kw = {} if st is None else {"store": st}
        E = LOOKUP
        if a in ("add", "replace"):
            t, r = new_trigger(sim, w.wall())
            k = ops.ref(r)
            co = sim.pick(stream, [False, True])
            v = f"n{sim.fresh()}"
            kw = {}
            extra = {}
            if sim.pick(stream, [0, 0, 1]):
                kw, extra = {"next_run_time": None}, {"next": None}
            call("add", tid, lambda: s.add_task(
                taskfns.job, t, args=[tid], id=tid, name=v, coalesce=co, mistrigger_grace_time=None, max_instances=50,
                store=home[tid], executor="dynex" if tid == "x0" else "default", replace_existing=a == "replace",
                **kw), (ConflictIdError,) + ((KeyError,) if tid == "d0" else ()),
                ref=k, co=co, val=v, replace=a == "replace", **extra)
        elif a == "pause":
            call("pause", tid, lambda: s.pause_task(tid, **kw), E)
        elif a == "resume":
            call("resume", tid, lambda: s.resume_task(tid, **kw), E)
        elif a == "reschedule":
            t, r = new_trigger(sim, w.wall())
            call("reschedule", tid, lambda: s.reschedule_task(tid, trigger=t, **kw), E, ref=ops.ref(r))
        elif a == "update":
            x = w.wall() + sim.pick(stream, [1 * US, 500_000, 3 * US, -1 * US])
            call("update", tid, lambda: s.update_task(tid, next_run_time=from_us(x), **kw), E, next=x)
        elif a == "both":
            x = w.wall() + sim.pick(stream, [1 * US, 500_000, 3 * US, -1 * US])
            v = f"n{sim.fresh()}"
            call("update", tid, lambda: s.update_task(tid, next_run_time=from_us(x), name=v, **kw), E, next=x, val=v)
        elif a == "val":
            v = f"n{sim.fresh()}"
            call("update", tid, lambda: s.update_task(tid, name=v, **kw), E, val=v)
        elif a == "delete":
            call("delete", tid, lambda: s.delete_task(tid, **kw), E)
        elif a in ("run", "noforce"):
            f = a == "run"
            call("run", tid, lambda: h.run_task(tid, force=f, **kw),
                 E + (MaximumInstancesError,) + ((KeyError,) if tid == "x0" else ()), force=f)
        elif a == "get":
            def get():
                t = s.get_task(tid, **kw)
                if t is None:
                    return None
                n = t.next_run_time
                return (to_us(n) if n else None,)
            call("getn", tid, get)
        elif a in ("list", "infos"):
            box = []
            only = sim.pick(stream, [None, None, home[tid]])

            def lst():
                r = s.get_task_infos(only, sort_by=sim.pick(stream, ["next_run_time", "id", "store"]))
                box.append(snap(r))
                return box[0].get(tid)
            o = call("get", tid, lst)
            if only is None or home[tid] == only:
                for p in ids:
                    if p != tid and (only is None or home[p] == only):
                        ops.also(o, "get", p, box[0].get(p))
        elif a == "info":
            def info():
                i = s.get_task_info(tid, **kw)
                return None if i is None else (to_us(i.next_run_time) if i.next_run_time else None, i.name)
            call("get", tid, info)
        elif a == "preview":
            def pre():
                p = s.preview_task_runs(tid, count=3, **kw)
                return None if p is None else tuple(to_us(x) for x in p.run_times)
            call("has", tid, pre)
        elif a == "sched":
            def si():
                i = s.get_scheduler_info()
                if i.task_count != i.scheduled_task_count + i.paused_task_count + i.pending_task_count:
                    w.fail("counts", f"scheduler info does not add up: {i}")
                s.get_scheduler_instance_infos()
                return s.get_tasks()
            guarded("scheduler info", si)
        elif a == "clear":
            al = sim.pick(stream, [home[tid], None])
            o = call("clear", tid, lambda: s.remove_all_tasks(al))
            for p in ids:
                if p != tid and (al is None or home[p] == al):
                    ops.also(o, "clear", p)
        elif a == "mount":
            call("mount", "d0", lambda: s.add_store(w.make_store(kinds["dyn"], where="dyn"), "dyn"), (ValueError,),
                 keeps=kinds["dyn"] != "memory")
        elif a == "unmount":
            call("unmount", "d0", lambda: s.remove_store("dyn"), (KeyError,))
        elif a in ("addex", "rmex"):
            b = w.seq()
            if a == "addex":
                r = guarded("add_executor", lambda: s.add_executor(w.make_executor(dex), "dynex"), (ValueError,))
            else:
                r = guarded("remove_executor", lambda: s.remove_executor("dynex"), (KeyError,))
            if r is None:
                exlog.append((b, w.seq(), a))
        elif a == "listener":
            if listeners and sim.chance(stream, 50):
                cb = listeners.pop()
                guarded("remove_listener", lambda: s.remove_listener(cb))
            else:
                def cb(e, n=len(heard)):
                    heard.append(e)
                listeners.append(cb)
                guarded("add_listener", lambda: s.add_listener(cb, EV.ALL_EVENTS))
        elif a == "spause":
            guarded("pause", s.pause)
            sim.sleep(sim.pick(stream, [0, 100_000, 2 * US]))
            guarded("resume", s.resume)
        elif a == "wrong":
            # names something that does not exist
            bad = sim.pick(stream, [("nope", None), (tid, "nope"), ("nope", home[tid])])
            n = sim.pick(stream, ["pause", "resume", "delete", "run", "update", "reschedule"])
            fn = {"pause": lambda: s.pause_task(*bad), "resume": lambda: s.resume_task(*bad),
                  "delete": lambda: s.delete_task(*bad), "run": lambda: s.run_task(*bad),
                  "update": lambda: s.update_task(*bad, name="zz"),
                  "reschedule": lambda: s.reschedule_task(*bad, trigger="interval", seconds=3)}[n]
            r = guarded(f"{n}{bad}", fn, LOOKUP)
            if not isinstance(r, TaskLookupError):
                w.fail("accepted", f"{n}{bad} did not fail: {r!r}")
            if s.get_task(*bad) is not None or s.get_task_info(*bad) is not None:
                w.fail("found", f"get_task{bad} found something")
        else:
            r = guarded("add_task", lambda: s.add_task(taskfns.job, "interval", seconds=5, id="lost", args=["lost"],
                                                       store="nowhere"), (KeyError,))
            if not isinstance(r, KeyError):
                w.fail("accepted", f"add_task to a missing store did not fail: {r!r}")

    for tid in ids:
        if tid != "d0" or sim.chance("w", 50):
            do("w", "add", tid)

    def hook(c):
        if sim.cur in w.manual_threads:      # executed inside a run_task call
            return
        if sim.chance("x", 12):
            do("x", sim.pick("x", ["pause", "delete", "resume", "update", "val", "reschedule", "get", "list", "preview",
                                   "sched"]), sim.pick("x", lin))
    if sim.chance("w", 50):
        w.default_plan.hook = hook

    def client(k):
        for _ in range(sim.rint("w", 3, 8)):
            if sim.chance("w", 70):
                sim.sleep(sim.pick("w", [400_000, 50_000, 1 * US, 900_000, 2 * US]))
            do("w")
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [2, 2, 3, 4]))]
    for t in ths:
        sim.join(t)
    guarded("resume", s.resume)
    sim.sleep(sim.pick("w", [500_000, 3 * US]))
    t_end = quiesce(w, h, 1)
    w.default_plan.hook = None
    s.pause()
    sim.sleep(400_000)
    attach_runs(w, ops.ops)
    last = snap(s.get_task_infos())
    for tid in lin:
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and x.result in ("ok", "max")]
        check_task(w, ops.refs, tid, home[tid], my, atts, last.get(tid), t_end,
                   init=[GONE._replace(up=home[tid] != "dyn")])
    for x in w.subs:
        if x.ex == "dynex" and x.result == "ok":
            # adds and removals alternate: one more addition than removals while it is there
            added = sum(1 for e in exlog if e[2] == "addex" and e[0] < x.s1)
            gone = sum(1 for e in exlog if e[2] == "rmex" and e[1] < x.s0)
            if added <= gone:
                w.fail("removed_executor", f"{x} was handed over after the executor was removed")
        if x.store != home.get(x.task_id):
            w.fail("store", f"{x} was handed over for store {x.store}")
    for tid in last:
        if tid not in ids:
            w.fail("phantom", f"task {tid} was never added successfully")
    sim.probe("calls", len(ops.ops))
    sim.probe("handovers", len(w.subs))
    sim.probe("mounts", sum(o.kind == "mount" and o.exc is None for o in ops.ops))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"executor": ek, "ops": [repr(o) for o in ops.ops], "handovers": len(w.subs)}
