"""C19 A persisted task keeps its exact schedule across restarts and downtime."""
from ..kernel import US, Proc
from ..seqspec import Ops, attach_runs, check_task
from ..storetools import BERLIN, fprint
from ..world import *  # noqa
from ..workload import *  # noqa
from asyncz.triggers import AndTrigger, OrTrigger
from ..refmodel import RAnd, ROr
from . import c20
from .c01 import STUB
from .c05 import new_trigger
from .c23 import aligned, endless

ID = "C19"
RUNS_QUICK = 3500
RUNS_THOROUGH = 200000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["asyncz schedulers, stores, executors, triggers, tasks and their pickled state", "CPython asyncio, concurrent.futures, "
        "redis-py client, SQLAlchemy + SQLite"]
KINDS = [(3, "file"), (3, "redis"), (2, "mongo"), (3, "sql")]
E = (TaskLookupError, ConflictIdError, MaximumInstancesError)


def fields(t):
    """What has to survive (the next run time follows the schedule and is judged separately)."""
    p = fprint(t)
    return p[:9] + p[11:] + (t.store_alias,)


def gen(sim, w, now):
    k = sim.wpick("w", [(6, "plain"), (2, "combined"), (1, "zone"), (1, "interval")])
    if k == "interval":
        t, r, d = c20.gen_interval(sim, BERLIN, sim.chance("w", 70), now, steps=(2, 5, 7, 30, 60), span=60)
        r.desc = d
        return t, r
    if k == "zone":
        t, r, d = c20.gen_cron(sim, BERLIN, BERLIN, sim.chance("w", 70), ["*"], secs=("0", "30", "0,20", "*/15"))
        r.desc = d
        return t, r
    if k == "combined":
        for _ in range(5):
            parts = [aligned(sim, now) for _ in range(2)]
            kind = sim.pick("w", ["or", "and"])
            t = (OrTrigger if kind == "or" else AndTrigger)(triggers=[p[0] for p in parts])
            r = (ROr if kind == "or" else RAnd)([p[1] for p in parts])
            r.desc = kind + str([p[2] for p in parts])
            if not endless(r, now):
                return t, r
    return new_trigger(sim, now)


def run(sim):
    if sim.chance("w", 25):
        # around the end of the summer time, where wall times repeat
        sim.wall_off = c20.ts(2031, 10, 26, 1) - sim.pick("w", [5, 30, 90, 1200]) * US - sim.mono
    w = World(sim, ID)
    w.record_store_ops = True
    sim.max_steps *= 4
    aliases = ["default", "b"][:sim.pick("w", [1, 1, 2])]
    kinds = {a: sim.wpick("w", KINDS) for a in aliases}
    ek = {"default": sim.wpick("w", [(40, "thread"), (40, "asyncio"), (15, "debug")])}
    if sim.chance("w", 30):
        ek["x"] = sim.wpick("w", [(40, "thread"), (40, "asyncio")])
    inline = "debug" in ek.values()
    w.default_plan = Plan((0, 10_000) if inline else (0, 200_000))
    tz = sim.pick("w", ["UTC", "UTC", "Europe/Berlin"])
    ops = Ops(w)
    home = {f"t{i}": sim.pick("w", aliases) for i in range(sim.pick("w", [1, 2, 3]))}
    ids = sorted(home)
    fps = {}            # task id -> fields it must have
    cur = {}            # task id -> its reference schedule
    sent = {i: [] for i in ids}     # arguments it may be called with
    mode = sim.wpick("w", MODES)
    crashed = {}
    procs = []
    maybe = set()
    long_ok = [True]
    host = [None]

    def inproc(p, fn, what, limit=300 * US):
        box = []
        if not p.alive:
            return None

        def go():
            try:
                box.append(("ok", fn()))
            except Exception as e:  # noqa
                box.append(("exc", e))
        t = sim.spawn(go, name=f"{what}.{p.name}", proc=p)
        if not sim.join(t, limit + 10 * sim.stall_max_us):
            w.fail("stuck", f"{what} in {p.name} does not return: " + sim.stacks())
        if not box:
            return None
        if box[0][0] == "exc":
            raise box[0][1]
        return box[0][1]

    def launch(paused):
        p = Proc(f"P{len(procs)}")
        procs.append(p)

        def go():
            h = Host(w, mode, name=p.name, proc=p, stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
                     executors={a: w.make_executor(k, **({"max_workers": 4} if k == "thread" else {}))
                                for a, k in ek.items()}, timezone=tz)
            h.start(paused)
            return h
        return inproc(p, go, "start")

    # ------------------------------------------------ calls on the tasks
    def do(tid, which=None, cut=False):
        h = host[0]
        s, st = h.sched, home[tid]
        a = which or sim.wpick("w", [(3, "add"), (2, "pause"), (3, "resume"), (2, "reschedule"), (2, "update"), (2, "options"),
                                     (1, "delete"), (2, "run")])
        if cut and a in ("resume", "run"):
            a = "reschedule"
        kw = dict(store=st)
        new = None

        def call(kind, fn, **more):
            return ops.call(kind, tid, lambda: inproc(h.proc, fn, kind), E, **more, **kw)
        if a == "add":
            t, r = gen(sim, w, w.wall())
            k = ops.ref(r)
            co = bool(sim.pick("w", [0, 1]))
            gr = sim.pick("w", [None, None, 2, 50, 1.5])
            n = sim.fresh()
            args, kws = [tid, n, taskfns.Obj(n)], {"k": [n, {"x": None}]}
            m, extra = {}, {}
            if sim.chance("w", 15):
                m, extra = {"next_run_time": None}, {"next": None}
            rep = sim.chance("w", 40)
            ex = sim.pick("w", sorted(ek))
            # with an asyncio executor the function may be a coroutine
            f = taskfns.ajob if ek[ex] == "asyncio" and sim.chance("w", 50) else taskfns.job
            sent[tid].append((tuple(args[1:]), kws))
            o = call("add", lambda: s.add_task(f, t, args=args, kwargs=kws, id=tid, name=f"n{n}", coalesce=co,
                     mistrigger_grace_time=gr, max_instances=200 + n, executor=ex, store=st, replace_existing=rep, **m),
                     ref=k, co=co, val=f"n{n}", replace=rep, **extra)
            new = r
            if not co:
                long_ok[0] = False
        elif a == "pause":
            o = call("pause", lambda: s.pause_task(tid, st))
        elif a == "resume":
            o = call("resume", lambda: s.resume_task(tid, st))
        elif a == "delete":
            o = call("delete", lambda: s.delete_task(tid, st))
        elif a == "reschedule":
            t, r = gen(sim, w, w.wall())
            k = ops.ref(r)
            o = call("reschedule", lambda: s.reschedule_task(tid, st, trigger=t), ref=k)
            new = r
        elif a == "update":
            x = w.wall() + sim.pick("w", [1 * US, 500_000, 3 * US, -1 * US, 30 * US])
            o = call("update", lambda: s.update_task(tid, st, next_run_time=from_us(x)), next=x)
        elif a == "options":
            n = sim.fresh()
            c = bool(sim.pick("w", [0, 1]))
            args, kws = (tid, n, taskfns.Obj(n)), {"k": [n, {"y": b"\0"}]}
            gr = sim.pick("w", [None, 2, 50, 2.25])
            sent[tid].append((args[1:], kws))
            o = call("update", lambda: s.update_task(tid, st, name=f"n{n}", coalesce=c, args=args, kwargs=kws,
                     max_instances=200 + n, mistrigger_grace_time=gr), val=f"n{n}", co=c)
            if not c:
                long_ok[0] = False
        else:
            o = call("run", lambda: h.run_task(tid, st))
            o.thread = f"run.{h.proc.name}"
        if cut and o.exc is None and o.res is None:
            return o
        if o.exc is None:
            if new is not None:
                cur[tid] = new
            if o.res is not None:
                fps[tid] = fields(o.res)
        return o

    def inspect(paused):
        """A restored scheduler shows the tasks with everything they had."""
        h = host[0]
        for tid in ids:
            st = home[tid]
            o = ops.call("getn", tid, lambda: inproc(h.proc, lambda: h.sched.get_task(tid, st), "get"), (), store=st)
            t = o.res
            if t is not None:
                o.res = (to_us(t.next_run_time) if t.next_run_time else None,)
                if tid not in fps:
                    # the call which was cut short may have changed it
                    fps[tid] = fields(t)
                elif fields(t) != fps.get(tid):
                    diff = [(x, y) for x, y in zip(fps.get(tid) or (None,), fields(t)) if x != y]
                    w.fail("fields", f"{tid} on {kinds[st]} came back different: {diff}")
                if t.next_run_time and str(t.next_run_time.utcoffset()) != str(t.next_run_time.astimezone(
                        t.next_run_time.tzinfo).utcoffset()):
                    w.fail("zone", f"{tid}: next run time {t.next_run_time} came back with a wrong offset")
            if t is None or tid not in cur:
                continue
            if paused and t.next_run_time is not None:
                n = sim.pick("w", [1, 3, 7])
                pv = inproc(h.proc, lambda: h.sched.preview_task_runs(tid, st, count=n), "preview")
                if pv is None:
                    w.fail("preview", f"{tid}: no preview of a restored task")
                got = [to_us(x) for x in pv.run_times]
                want = [to_us(t.next_run_time)]
                while len(want) < n:
                    x = cur[tid].after(want[-1])
                    if x is None:
                        break
                    want.append(x)
                last = cur[tid].after(want[-1]) is None
                if got != want or pv.exhausted != last:
                    w.fail("preview", f"{tid} ({cur[tid].desc}) restored from {kinds[st]}: preview says "
                                      f"{[w.rel(x) for x in got]} exhausted={pv.exhausted}, expected "
                                      f"{[w.rel(x) for x in want]} exhausted={last}")
                sim.probe("previews")

    nperiods = sim.rint("w", 2, 5)
    style_for_run(sim, calm=35, stall_max_us=1 * US)
    ends = []
    for period in range(nperiods):
        last = period == nperiods - 1
        paused = sim.chance("w", 50)
        again = host[0] is not None and host[0].proc.alive and sim.chance("w", 30)
        if again:
            h = host[0]
            inproc(h.proc, lambda: h.start(paused), "start")
        else:
            host[0] = h = launch(paused)
        if period:
            inspect(paused)
        else:
            for tid in ids:
                do(tid, "add")
        if paused:
            for _ in range(sim.rint("w", 0, 2)):
                do(sim.pick("w", ids))
            inproc(h.proc, h.sched.resume, "resume")
        for _ in range(sim.rint("w", 0, 3)):
            sim.sleep(sim.pick("w", [0, 400_000, 1 * US, 2_500_000]))
            do(sim.pick("w", ids))
        sim.sleep(sim.pick("w", [0, 1 * US, 3 * US, 7 * US]))
        if last:
            break
        align = US - w.wall() % US
        sim.sleep(sim.pick("f", [0, align, align - 1, align + 1000]))
        how = sim.wpick("f", [(4, "stop"), (4, "kill"), (2, "cut")])
        if how == "stop":
            inproc(h.proc, lambda: h.shutdown(wait=bool(sim.pick("w", [1, 0])), settle=True), "stop")
        else:
            if how == "cut":
                tid = sim.pick("w", ids)
                box = []

                def go():
                    box.append(do(tid, sim.pick("w", ["pause", "reschedule", "update", "options", "delete"]), cut=True))
                th = sim.spawn(go, name="cut", proc=sim.default_proc)
            for _ in range(sim.rint("f", 0, 60)):
                sim.point("w")
            sim.fault("crash")
            sim.crash(h.proc)
            crashed[h.proc] = w.seq()
            if how == "cut":
                if not sim.join(th, 400 * US):
                    w.fail("stuck", "a call into a crashed process hangs: " + sim.stacks())
                o = box[0]
                if o.exc is None and o.res is None:
                    o.maybe = True
                    o.t1, o.s1 = w.wall(), w.seq()
                    fps.pop(tid, None)
                    cur.pop(tid, None)
        ends.append(how)
        downtime = [0, 2 * US, 20 * US, 60 * US]
        if long_ok[0]:
            downtime.append(1200 * US)
        sim.sleep(sim.pick("w", downtime))
    late = 2 * sim.stall_max_us if sim.style and sim.stalls else 0
    calm_down(sim)
    sim.sleep(3 * US + late)
    t_end = w.wall() - late
    h = host[0]
    inproc(h.proc, h.sched.pause, "pause")
    sim.sleep(600_000)
    # ------------------------------------------------ which hand-overs were not recorded when their process died
    for x in w.subs:
        if x.proc in crashed and not x.manual:
            done = [q for q, a, op, tid in w.store_ops if a == x.store and tid == x.task_id and q > x.s0
                    and q < crashed[x.proc] and op in ("update_task", "delete_task")]
            if not done:
                maybe.add(x.n)
    attach_runs(w, ops.ops)
    for tid in ids:
        st = home[tid]
        t = inproc(h.proc, lambda: h.sched.get_task(tid, st), "get")
        if t is not None and tid in fps and fields(t) != fps[tid]:
            diff = [(x, y) for x, y in zip(fps[tid], fields(t)) if x != y]
            w.fail("fields", f"{tid} on {kinds[st]} has changed: {diff}")
        final = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and (x.result in ("ok", "max") or x.n in maybe)]
        check_task(w, ops.refs, f"{tid} on {kinds[st]}", st, my, atts, final, t_end, maybe=maybe)
        check_runs(w, tid, sent[tid], crashed)
    sim.probe("periods", nperiods)
    sim.probe("hand_overs", len(w.subs))
    sim.probe("crashes", len(crashed))
    sim.probe("unrecorded", len(maybe))
    inproc(h.proc, lambda: h.shutdown(wait=False), "stop")
    for x in w.hosts:
        if x.proc.alive:
            inproc(x.proc, x.stop_app, "stop_app")
    w.close()
    return {"stores": kinds, "executors": ek, "ends": ends, "ops": [repr(o) for o in ops.ops], "hand_overs": len(w.subs)}


def check_runs(w, tid, sent, crashed):
    """Calls have the arguments the task was given; a backlog is run or missed according to the task's grace."""
    for c in w.calls:
        if c.tag == tid and (c.args, c.kwargs) not in sent:
            w.fail("arguments", f"{tid} was called with {c.args} {c.kwargs}, it was given {sent}")
    for x in w.subs:
        if x.task_id != tid or x.result != "ok" or x.proc in crashed:
            continue
        g = x.task_grace
        for t in x.times:
            if sum(t in y.times for y in w.subs if y.task_id == tid and y.proc is x.proc) > 1:
                continue        # which of the hand-overs an event is about can not be told
            evs = [e for e in w.events if e.task_id == tid and e.seq > x.s0 and e.code in TERMINAL and t in (e.times or ())
                   and e.sched == x.proc.name]
            for e in evs[:1]:
                if e.code == EV.TASK_MISSED and (g is None or e.t - t <= g * US):
                    w.fail("missed", f"{tid}: run time {w.rel(t)} was skipped at {w.rel(e.t)} with grace {g}")
                if e.code != EV.TASK_MISSED and g is not None and x.t0 - t > g * US:
                    w.fail("not_missed", f"{tid}: run time {w.rel(t)} was run at {w.rel(e.t)} with grace {g}")
