"""C18 A rejected management call leaves tasks and schedule unchanged."""
import datetime as dtm

from ..kernel import US
from ..seqspec import Ops, attach_runs, check_task
from ..storetools import Backend, fprint, store_exc
from ..world import *  # noqa
from ..workload import *  # noqa
from asyncz.exceptions import AsynczException
from asyncz.tasks import Task
from .c01 import REAL, STUB
from .c05 import new_trigger

ID = "C18"
RUNS_QUICK = 4000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"

CHANGES = EV.TASK_ADDED | EV.TASK_REMOVED | EV.TASK_MODIFIED | EV.ALL_TASKS_REMOVED | EV.TASK_SUBMITTED
EXTREME = [dtm.datetime(9999, 12, 31, 23, 59, 59, tzinfo=dtm.timezone(dtm.timedelta(hours=-5))),
           dtm.datetime(1, 1, 1, tzinfo=dtm.timezone(dtm.timedelta(hours=5)))]


# which of them a wrong value raises is not part of this property
INVALID = (TypeError, ValueError, LookupError, AttributeError, OverflowError, AsynczException)


class Refuses:
    """A value that can not be converted."""

    def __bool__(self):
        raise ValueError("no truth value")

    def __len__(self):
        raise ValueError("no length")


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot be pickled")


def full(t):
    """Every field of a task object, also those no store keeps."""
    return fprint(t) + (t.store_alias, t.fn_reference, t.pending, t.submitted, type(t.args).__name__,
                        type(t.kwargs).__name__)


def run(sim):
    w = World(sim, ID)
    aliases = ["default", "b"][:sim.pick("w", [1, 2])]
    kinds = {a: sim.wpick("w", [(35, "memory"), (15, "file"), (15, "redis"), (15, "mongo"), (20, "sql")]) for a in aliases}
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:sim.pick("w", [1, 2])]}
    inline = "debug" in ek.values()
    backs = {a: Backend(w, k, where=a) for a, k in kinds.items() if k != "memory"}
    h = Host(w, sim.wpick("w", MODES),
             stores={a: w.make_store(k, where=a, **(backs[a].kw if a in backs else {})) for a, k in kinds.items()},
             executors={a: w.make_executor(k) for a, k in ek.items()}, store_retry_interval=2)
    s = h.sched
    ops = Ops(w)
    home = {f"t{i}": sim.pick("w", aliases) for i in range(sim.pick("w", [1, 2, 3, 4]))}
    ids = sorted(home)
    w.default_plan = Plan((0, 20_000) if inline else sim.pick("w", [(0, 300_000), (0, 2_500_000)]))
    refused = []
    errs = store_exc()

    # ------------------------------------------------ valid history
    def do(tid, which=None):
        st = home[tid]
        a = which or sim.wpick("w", [(3, "pause"), (3, "resume"), (3, "reschedule"), (3, "update"), (1, "delete"), (3, "add"),
                                     (2, "val"), (2, "co"), (2, "run")])
        E = (TaskLookupError, ConflictIdError)
        kw = dict(store=st)
        if a == "pause":
            ops.call("pause", tid, lambda: s.pause_task(tid), E, **kw)
        elif a == "resume":
            ops.call("resume", tid, lambda: s.resume_task(tid), E, **kw)
        elif a == "delete":
            ops.call("delete", tid, lambda: s.delete_task(tid), E, **kw)
        elif a == "reschedule":
            t, r = new_trigger(sim, w.wall())
            k = ops.ref(r)
            ops.call("reschedule", tid, lambda: s.reschedule_task(tid, trigger=t), E, ref=k, **kw)
        elif a == "update":
            x = w.wall() + sim.pick("w", [1 * US, 500_000, 3 * US, -1 * US])
            ops.call("update", tid, lambda: s.update_task(tid, next_run_time=from_us(x)), E, next=x, **kw)
        elif a == "co":
            c = sim.pick("w", [True, False])
            ops.call("update", tid, lambda: s.update_task(tid, coalesce=c), E, co=c, **kw)
        elif a == "val":
            v = f"n{sim.fresh()}"
            ops.call("update", tid, lambda: s.update_task(tid, name=v), E, val=v, **kw)
        elif a == "run":
            n, before = len(w.subs), look()
            o = ops.call("run", tid, lambda: h.run_task(tid), E + (MaximumInstancesError,), **kw)
            if o.exc == "MaximumInstancesError" and len(w.subs) == n + 1:
                compare("run of a task at its limit", before, look())
                sim.probe("refused_max")
        else:
            t, r = new_trigger(sim, w.wall())
            k = ops.ref(r)
            co = sim.pick("w", [False, True])
            v = f"n{sim.fresh()}"
            extra = {}
            m = {}
            if sim.chance("w", 20):
                m, extra = {"next_run_time": None}, {"next": None}
            rep = sim.chance("w", 30)
            ops.call("add", tid, lambda: s.add_task(
                taskfns.job, t, args=[tid], id=tid, name=v, coalesce=co, mistrigger_grace_time=None, store=st,
                executor=sim.pick("w", sorted(ek)), max_instances=sim.pick("w", [50, 1]), replace_existing=rep, **m), E,
                ref=k, co=co, val=v, replace=rep, **extra, **kw)

    # ------------------------------------------------ looking
    def look():
        out = {}
        for a in aliases:
            try:
                out[a] = [full(t) for t in s.get_tasks(a)]
            except errs:
                out[a] = None
        out["raw"] = {a: b.raw() for a, b in backs.items()} if s.running else None
        return out

    def compare(what, before, after):
        for a in aliases:
            if before[a] == after[a] or before[a] is None or after[a] is None:
                continue
            b, c = {x[0]: x for x in before[a]}, {x[0]: x for x in after[a]}
            for tid in sorted(set(b) | set(c)):
                if b.get(tid) != c.get(tid):
                    diff = [(x, y) for x, y in zip(b.get(tid) or (None,), c.get(tid) or (None,)) if x != y]
                    w.fail("changed", f"refused {what} on store {a} ({kinds[a]}) changed task {tid}: {diff} "
                                      f"(before {b.get(tid) is not None}, after {c.get(tid) is not None})")
            if kinds[a] == "memory":
                w.fail("order", f"refused {what} changed the order of the tasks of store {a}: {[x[0] for x in before[a]]} "
                                f"-> {[x[0] for x in after[a]]}")
        if before["raw"] != after["raw"]:
            w.fail("stored", f"refused {what} changed a stored copy: {before['raw']} -> {after['raw']}")

    # ------------------------------------------------ refused calls
    def bad_updates(tid, st):
        out = [
            ("unknown attribute", dict(colour="red"), AttributeError),
            ("new id", dict(id="other"), ValueError),
            ("max_instances 0", dict(max_instances=sim.pick("w", [0, -1, "3", 1.5, None])), TypeError),
            ("grace", dict(mistrigger_grace_time=sim.pick("w", [0, -2, "5"])), TypeError),
            ("executor", dict(executor=sim.pick("w", [None, 5])), TypeError),
            ("trigger", dict(trigger=sim.pick("w", ["interval", None, 5])), TypeError),
            ("name", dict(name=sim.pick("w", ["", 5])), TypeError),
            ("args", dict(args=sim.pick("w", ["abc", 5])), TypeError),
            ("kwargs", dict(kwargs=sim.pick("w", ["abc", [1]])), TypeError),
            ("missing argument", dict(args=[]), ValueError),
            ("fn", dict(fn=sim.pick("w", [5, [1]])), TypeError),
            ("fn reference", dict(fn=sim.pick("w", ["no.such.module:fn", "vsim.taskfns:nothing", "nocolon"])),
             (LookupError, ValueError, AsynczException)),
            ("next run time", dict(next_run_time=sim.pick("w", ["yesterday", object(), 5.5])),
             (TypeError, ValueError, AsynczException)),
            ("extreme next run time", dict(next_run_time=sim.pick("w", EXTREME)), (OverflowError, ValueError)),
            ("coalesce", dict(coalesce=Refuses()), ValueError),
            ("other scheduler", dict(scheduler=other[0]), (ValueError, TypeError)),
        ]
        if st in backs:
            out += [("unserialisable function", dict(fn=lambda tag: None), ValueError),
                    ("unserialisable argument", dict(args=[tid, Unpicklable()]), TypeError),
                    ("unserialisable keyword", dict(kwargs={"k": Unpicklable()}), TypeError)]
        name, kw, exc = sim.pick("w", out)
        if name != "other scheduler" and sim.chance("w", 60):
            good = {"name": "sneaky", "coalesce": True, "max_instances": 7, "mistrigger_grace_time": 3,
                    "next_run_time": from_us(w.wall() + 1_500_000), "args": [tid, 1], "executor": "default",
                    "trigger": IntervalTrigger(seconds=1, timezone="UTC")}
            mix = {}
            for k in sorted(good):
                if k not in kw and sim.chance("w", 40):
                    mix[k] = good[k]
            if sim.chance("w", 50):
                kw = {**mix, **kw}
            else:
                kw = {**kw, **mix}
            if name == "missing argument":
                kw["args"] = []
            name += " with " + ",".join(sorted(mix)) if mix else ""
        return name, kw, exc

    def exists(tid):
        t = s.get_task(tid, home[tid])
        return t is not None

    def refuse():
        """One call that has to be refused."""
        tid = sim.pick("w", ids)
        st = home[tid]
        s00 = w.seq()
        there = exists(tid)
        trig = IntervalTrigger(seconds=1, timezone="UTC")
        held = None
        fault = None
        kindchoice = [(6, "update"), (4, "add"), (2, "missing"), (2, "reschedule"), (3, "task_object")]
        running = s.running
        if running:
            kindchoice += [(3, "run")]
            if st in backs:
                kindchoice += [(6, "fault")]
        k = sim.wpick("w", kindchoice)
        common = dict(id=f"new{sim.fresh()}", args=["new"], store=st)
        if k == "update":
            if not there:
                return
            name, kw, exc = bad_updates(tid, st)
            if not running and ("unserialisable" in name):
                return
            name = f"update ({name})"

            def fn():
                s.update_task(tid, **kw)
        elif k == "add":
            c = [("unknown trigger", dict(trigger="never", **common), LookupError),
                 ("bad interval", dict(trigger="interval", seconds="x", **common), (TypeError, ValueError)),
                 ("bad cron", dict(trigger="cron", second="99", **common), ValueError),
                 ("max_instances", dict(trigger=trig, max_instances=0, **common), (TypeError, ValueError)),
                 ("grace", dict(trigger=trig, mistrigger_grace_time=-1, **common), (TypeError, ValueError)),
                 ("args", dict(trigger=trig, **{**common, "args": []}), ValueError),
                 ("next run time", dict(trigger=trig, next_run_time="soon", **common), AsynczException)]
            if running:
                c += [("unknown store", dict(trigger=trig, **{**common, "store": "nope"}), KeyError),
                      ("extreme next run time", dict(trigger=trig, next_run_time=sim.pick("w", EXTREME), **common),
                       (OverflowError, ValueError))]
                if there:
                    c += [("conflicting id", dict(trigger=trig, **{**common, "id": tid}), ConflictIdError)] * 3
                if st in backs:
                    rep = {**common, "id": tid} if there else common
                    c += [("unserialisable argument", dict(trigger=trig, replace_existing=True,
                                                           **{**rep, "args": ["x", Unpicklable()]}), TypeError),
                          ("unserialisable function", dict(trigger=trig, replace_existing=True, f=lambda tag: None, **rep),
                           ValueError)]
            name, kw, exc = sim.pick("w", c)
            name = f"add ({name})"
            f = kw.pop("f", taskfns.job)

            def fn():
                s.add_task(f, **kw)
        elif k == "missing":
            what = sim.pick("w", ["update", "pause", "resume", "reschedule", "delete"] + (["run"] if running else []))
            mid, mst = ("ghost", None)
            if there and sim.chance("w", 50):
                mid, mst = tid, "nope"
            name, exc = f"{what} of a missing task", TaskLookupError
            call = {"update": lambda: s.update_task(mid, mst, name="x"), "pause": lambda: s.pause_task(mid, mst),
                    "resume": lambda: s.resume_task(mid, mst), "delete": lambda: s.delete_task(mid, mst),
                    "reschedule": lambda: s.reschedule_task(mid, mst, trigger=trig), "run": lambda: h.run_task(mid, mst)}
            fn = call[what]
        elif k == "reschedule":
            name = "reschedule with bad trigger"
            exc = (LookupError, TypeError, ValueError)
            targs = sim.pick("w", [dict(trigger="never"), dict(trigger="cron", hour="77"), dict(trigger="interval", seconds="x"),
                                   dict(trigger=5)])

            def fn():
                s.reschedule_task(tid, **targs)
        elif k == "run":
            if not there:
                return
            if sim.chance("w", 50):
                name, exc = "run with an executor that refuses", InjectedError

                def fn():
                    w.exec_fault = lambda ex, t: sim.cur is me and t == tid
                    try:
                        h.run_task(tid)
                    finally:
                        w.exec_fault = None
            else:
                # its executor has gone
                name, exc = "run with an unknown executor", KeyError
                old = s.get_task(tid, st)
                if old is None or old.next_run_time is None or to_us(old.next_run_time) < w.wall() + 500_000 or st == "":
                    return
                if sim.style:
                    return
                ex = old.executor
                s.update_task(tid, st, executor="gone")

                def fn():
                    h.run_task(tid)
                undo.append(lambda: s.update_task(tid, st, executor=ex))
        elif k == "task_object":
            mk = dict(id=f"new{sim.fresh()}", args=["new"], trigger=trig, store_alias=st)
            why = sim.pick("w", ["grace", "unknown", "run_time", "fn"] + (["conflict", "store", "fault"] if running else []))
            if why == "conflict" and not there or why == "fault" and st not in backs:
                return
            if why == "conflict":
                mk["id"] = tid
            f = taskfns.job
            if why == "fn":
                if st not in backs or not running:
                    return
                f = lambda tag: None  # noqa
            held = Task(f, **mk)
            extra = {"grace": dict(mistrigger_grace_time=-1, name="changed"), "unknown": dict(id="other", name="changed"),
                     "run_time": dict(next_run_time="soon"), "store": dict(store="nope", name="changed")}.get(why, {})
            if why == "fault":
                fault = (st, "add_task")
            exc = {"grace": TypeError, "unknown": ValueError, "run_time": AsynczException, "store": KeyError,
                   "conflict": ConflictIdError, "fault": InjectedError, "fn": ValueError}[why]
            name = f"add of a task object ({why})"

            def fn():
                s.add_task(held, **extra)
        else:
            what = sim.pick("w", ["update", "pause", "resume", "reschedule", "delete", "run", "add", "replace"])
            exc = InjectedError
            if what != "add" and not there:
                return
            op = {"resume": ("update_task", "delete_task", "lookup_task"), "delete": ("delete_task",), "run": ("lookup_task",),
                  "add": ("add_task",), "replace": ("add_task", "update_task")}.get(what, ("lookup_task", "update_task"))
            fault = (st, op if what in ("resume", "replace") else sim.pick("w", op))
            name = f"{what} with a failing store {fault}"
            call = {"update": lambda: s.update_task(tid, st, name="x", coalesce=True), "pause": lambda: s.pause_task(tid, st),
                    "resume": lambda: s.resume_task(tid, st), "delete": lambda: s.delete_task(tid, st),
                    "reschedule": lambda: s.reschedule_task(tid, st, trigger=trig), "run": lambda: h.run_task(tid, st),
                    "add": lambda: s.add_task(taskfns.job, trig, **common),
                    "replace": lambda: s.add_task(taskfns.job, trig, replace_existing=True, **{**common, "id": tid})}
            fn = call[what]
        me = sim.cur
        n_sub = len(w.subs)
        before = look()
        mine = full(held) if held is not None else None
        s0 = w.seq()
        if fault is not None:
            n = [0]

            def plan(a, op, t):
                if sim.cur is not me or a != fault[0] or op not in fault[1]:
                    return None
                n[0] += 1
                return "before"
            w.store_fault = plan
        sim.note("refuse", name)
        try:
            fn()
        except Exception as e:
            w.store_fault = None
            if k == "missing" or isinstance(e, TaskLookupError) and there:
                if not isinstance(e, TaskLookupError):
                    w.fail("error", f"{name} raised {e!r}")
            elif not isinstance(e, INVALID if exc not in (KeyError, ConflictIdError, InjectedError) else exc):
                w.fail("error", f"{name} raised {e!r}, expected {exc}")
            what_exc = e
        else:
            w.store_fault = None
            if fault is not None and not n[0]:
                return
            if "conflict" in name and any(e.code == EV.TASK_REMOVED and e.task_id == tid and e.seq > s00 for e in w.events):
                tainted.add(tid)      # its schedule ended just before the call
                s.delete_task(tid, st)
                return
            w.fail("accepted", f"{name} was not refused")
        # the executor's refusal of a manual run is a hand-over that was not accepted
        moved = [x for x in w.subs[n_sub:] if not (x.manual and x.thread == me.name)]
        after = look()
        moved += [x for x in w.subs[n_sub:] if not (x.manual and x.thread == me.name)]
        if not moved and all(before[a] is not None for a in aliases):
            compare(f"{name} [{what_exc!r}]", before, after)
            sim.probe("compared")
        for e in w.events:
            if e.seq > s0 and e.thread == me.name and e.code & CHANGES:
                w.fail("event", f"refused {name} emitted {e}")
        if held is not None:
            if full(held) != mine:
                diff = [(x, y) for x, y in zip(mine, full(held)) if x != y]
                w.fail("task_object", f"refused {name} changed the task object: {diff}")
        for u in undo:
            u()
        undo.clear()
        if held is not None and exists(tid) and sim.chance("w", 60) and f is taskfns.job and running:
            # the same object can be added afterwards
            x = w.wall() + 10_000 * US
            st2 = held.store_alias
            if held.id != tid:
                s.add_task(held, next_run_time=from_us(x))
                t = s.get_task(held.id, st2)
                if t is None or to_us(t.next_run_time) != x:
                    w.fail("resubmit", f"after the refused {name} the same task object could not be added properly: {t}")
                s.delete_task(held.id, st2)
        refused.append(name)
    undo = []
    tainted = set()
    other = [NativeAsyncIOScheduler(timezone="UTC", identity="other")]

    style_for_run(sim, calm=35)
    if sim.chance("w", 30):
        # before the start the calls work on the list of pending tasks
        pre = {}
        for tid in ids:
            t, r = new_trigger(sim, w.wall())
            v = f"n{sim.fresh()}"
            k = ops.ref(r)
            pre[tid] = ops.call("add", tid, lambda: s.add_task(taskfns.job, t, args=[tid], id=tid, name=v, coalesce=False,
                                mistrigger_grace_time=None, max_instances=50, store=home[tid],
                                executor=sim.pick("w", sorted(ek))), ref=k, co=False, val=v, store=home[tid])
        for _ in range(sim.rint("w", 0, 3)):
            refuse()
        h.start()
        for o in pre.values():
            o.t1, o.s1 = w.wall(), w.seq()
    else:
        h.start()
        for tid in ids:
            do(tid, "add")
    for _ in range(sim.rint("w", 3, 10)):
        sim.sleep(sim.pick("w", [0, 400_000, 50_000, 1 * US, 900_000, 2 * US]) + 1)
        if sim.chance("w", 30):
            do(sim.pick("w", ids))
        refuse()
    sim.sleep(sim.pick("w", [500_000, 3 * US]))
    t_end = quiesce(w, h, 1)
    h.sched.pause()
    sim.sleep(400_000)
    attach_runs(w, ops.ops)
    extra = {t.id for t in s.get_tasks()} - set(ids)
    if extra:
        w.fail("extra", f"refused calls left tasks behind: {sorted(extra)}")
    for tid in ids:
        if tid in tainted:
            continue
        t = h.sched.get_task(tid, home[tid])
        final = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and x.result in ("ok", "max")]
        check_task(w, ops.refs, tid, home[tid], my, atts, final, t_end)
    strange = [x for x in w.subs if x.task_id not in home and x.result in ("ok", "max")]
    if strange:
        w.fail("ran", f"a task whose addition was refused ran: {strange}")
    sim.probe("refused", len(refused))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"stores": kinds, "executors": ek, "refused": refused, "ops": [repr(o) for o in ops.ops]}
