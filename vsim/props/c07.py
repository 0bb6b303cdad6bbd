"""C07 Shutdown always completes and runs each shutdown task exactly once."""
import asyncio

from .. import fs as fsmod
from ..kernel import US, Proc
from ..storetools import Backend, store_exc
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C07"
RUNS_QUICK = 3500
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"


def shared(sim):
    """Schedulers of several processes share a store and are shut down at the same time."""
    w = World(sim, ID)
    kind = sim.wpick("w", [(3, "file"), (3, "redis"), (2, "mongo"), (3, "sql")])
    n = sim.pick("w", [2, 2, 3])
    locked = sim.chance("w", 50)
    w.default_plan = Plan((0, 100_000), [(6, "ret"), (1, "exc")])
    style_for_run(sim, calm=10)
    hosts = []
    for k in range(n):
        p = Proc(f"P{k}")
        box = []

        def go(p=p, box=box):
            h = Host(w, "thread", name=p.name, proc=p, stores={"default": w.make_store(kind)},
                     executors={"default": w.make_executor("thread", max_workers=2)}, store_retry_interval=3,
                     **({"lock_path": f"{fsmod.ROOT}/s.lock"} if locked else {}))
            h.start()
            box.append(h)
        t = sim.spawn(go, name=f"start{k}", proc=p)
        if not sim.join(t, 60 * US + 10 * sim.stall_max_us) or not box:
            w.fail("stuck", "start does not return: " + sim.stacks())
        hosts.append(box[0])
    ids = [f"z{k}" for k in range(sim.rint("w", 1, 4))]
    for i in ids:
        hosts[sim.rint("w", 0, n - 1)].sched.add_task(
            taskfns.ajob if sim.chance("w", 40) else taskfns.job, "shutdown", args=[i], id=i)
    sim.sleep(sim.pick("w", [0, 500_000, US]))
    ths = []
    for k, h in enumerate(hosts):
        ths.append(sim.spawn(lambda h=h: h.shutdown(wait=bool(sim.pick("w", [0, 1])), settle=False), name=f"down{k}",
                             proc=h.proc))
        sim.sleep(sim.pick("w", [0, 0, 1000, 100_000]))
    for t in ths:
        if not sim.join(t, 60 * US + 10 * sim.stall_max_us):
            w.fail("stuck", "shutdown does not return: " + sim.stacks())
    for h in hosts:
        end = sim.mono + 60 * US - sim.stall_total
        while not any(e.code == EV.SCHEDULER_SHUTDOWN and e.sched == h.name for e in w.events):
            sim.sleep(20_000)
            if sim.mono > end + sim.stall_total:
                w.fail("incomplete", f"the shutdown of {h.name} did not complete: " + sim.stacks())
    sim.sleep(3 * US + 2 * sim.stall_max_us)
    for i in ids:
        cs = [c for c in w.calls if c.tag == i]
        if len(cs) != 1:
            w.fail("shutdown_task", f"shutdown task {i} of the shared {kind} store ran {len(cs)} times in "
                                    f"{[c.proc.name for c in cs]}")
    calm_down(sim)
    w.close()
    sim.probe("shutdown_tasks", len(ids))
    return {"shared_store": kind, "schedulers": n, "lock": locked, "shutdown_tasks": len(ids)}


def run(sim):
    if sim.chance("w", 12):
        return shared(sim)
    w = World(sim, ID)
    aliases = ["default", "b"][:sim.pick("w", [1, 2])]
    kinds = {a: sim.wpick("w", STORES) for a in aliases}
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:sim.pick("w", [1, 2])]}
    mode = sim.wpick("w", MODES + [(12, "native_iso")])
    h = Host(w, mode, stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
             executors={a: w.make_executor(k, **({"max_workers": sim.pick("w", [4, 1])} if k in ("thread", "process")
                                                 else {})) for a, k in ek.items()}, store_retry_interval=3)
    sched = h.sched
    inline = "debug" in ek.values()
    w.default_plan = Plan((0, 10_000) if inline else (0, 300_000, 2 * US))
    style = style_for_run(sim, calm=25)
    via_app = h.mode != "thread"
    downs = {}        # shutdown task id -> store
    n_down = 0
    errs = store_exc()
    periods = sim.pick("w", [1, 1, 2, 3])
    requester = [None]

    def request(wait):
        """Asks for shutdown from wherever the current thread is."""
        if h.mode == "native":
            asyncio.run_coroutine_threadsafe(sched.shutdown(wait), h.loop)
        else:
            sched.shutdown(wait)

    # ---------------- a task function that shuts the scheduler down
    def suicide(c):
        if requester[0] == "task" and c.tag.startswith("k"):
            requester[0] = None
            sim.note("shutdown from task")
            request(wait_flag[0])
        elif nosy and sim.chance("x", 50):
            # a task looks at the scheduler while it is shut down
            sched.get_tasks()
            sched.get_scheduler_info()
    nosy = sim.chance("w", 50)
    w.default_plan.hook = suicide
    # ---------------- listeners
    def listener(event):
        if event.code == EV.SCHEDULER_SHUTDOWN:
            seen[0] = (sim.next_seq(), sim.wall())
        if requester[0] == "listener" and event.code in (EV.TASK_EXECUTED, EV.TASK_SUBMITTED):
            requester[0] = None
            sim.note("shutdown from listener")
            request(wait_flag[0])
        if bad_listener and sim.chance("f", 20):
            sim.fault("listener_raised")
            raise InjectedError("listener")
    bad_listener = sim.chance("w", 30)
    sched.add_listener(listener)
    seen = [None]
    wait_flag = [True]
    log = []
    for period in range(periods):
        seen[0] = None
        wait_flag[0] = bool(sim.pick("w", [1, 0]))
        starts = sim.pick("w", [1, 1, 2])
        mine = {}

        def add_down(api=sched):
            nonlocal n_down
            tid = f"z{n_down}"
            n_down += 1
            st = sim.pick("w", aliases)
            coro = bool(sim.pick("w", [0, 1]))
            w.plans[tid] = Plan((0, 200_000) if not coro else (0, 200_000, 1_500_000),
                                [(6, "ret"), (2, "exc"), (1, "base"), (1, "exit")] if not coro else
                                [(6, "ret"), (2, "exc"), (1, "cancel")])
            if sim.chance("w", 30):
                def hook(c):
                    # a shutdown task may look at the scheduler
                    sched.get_tasks()
                    sched.get_task_infos()
                w.plans[tid].hook = hook
            api.add_task(taskfns.ajob if coro else taskfns.job, "shutdown", args=[tid], id=tid, store=st)
            mine[tid] = st
        for _ in range(sim.rint("w", 0, 3)):
            add_down()
        nw = sim.rint("w", 0, 3)
        for k in range(nw):
            tid = f"k{period}.{k}"
            ex = sim.pick("w", sorted(ek))
            coro = ek[ex] == "asyncio" and sim.chance("w", 50)
            sched.add_task(taskfns.ajob if coro else taskfns.job, IntervalTrigger(seconds=1, start_at=from_us(w.wall()),
                           end_at=from_us(w.wall() + 6 * US)), args=[tid], id=tid, executor=ex,
                           store=sim.pick("w", aliases), max_instances=20)
        for _ in range(starts):
            h.start()
        for _ in range(sim.rint("w", 0, 2)):
            add_down()
        sim.sleep(sim.pick("w", [0, 500_000, 1_200_000, 2 * US]))
        for _ in range(starts - 1):
            # a nested shutdown runs nothing
            n0 = len([c for c in w.calls if c.tag in mine])
            h.shutdown(wait=wait_flag[0], settle=False)
            sim.sleep(100_000)
            if not sched.running:
                w.fail("nested", "a nested shutdown stopped the scheduler")
            if len([c for c in w.calls if c.tag in mine]) != n0:
                w.fail("nested", "a nested shutdown ran a shutdown task")
        early = [c.tag for c in w.calls if c.tag in mine]
        if early:
            w.fail("early", f"shutdown tasks {early} ran before the shutdown")
        if sim.chance("w", 15) and mine:
            # the deletion of a shutdown task holds
            tid = sim.pick("w", sorted(mine))
            sched.delete_task(tid)
            mine.pop(tid)
        # ---------------- other threads keep using the scheduler
        stop = [False]

        def client():
            while not stop[0]:
                try:
                    op = sim.pick("w", ["list", "add", "run", "info", "pause", "sleep"])
                    if op == "list":
                        sched.get_tasks()
                    elif op == "add":
                        tid = f"c{sim.fresh()}"
                        sched.add_task(taskfns.job, "date", run_at=from_us(w.wall()), args=[tid], id=tid,
                                       executor=sim.pick("w", sorted(ek)))
                    elif op == "run":
                        sched.run_task(f"k{period}.0")
                    elif op == "info":
                        sched.get_scheduler_info()
                    elif op == "pause":
                        sched.pause_task(f"k{period}.0")
                except Exception as e:  # noqa  (what these calls may raise is C12)
                    sim.probe(f"client_{type(e).__name__}")
                sim.sleep(sim.pick("w", [0, 1000, 50_000, 400_000]) + 1)
        ths = [sim.spawn(client, name=f"client{period}.{k}") for k in range(sim.pick("w", [0, 0, 1, 2]))]
        # ---------------- faulty store during the shutdown
        broken = None
        if sim.chance("w", 20):
            broken = sim.pick("w", aliases)
            ops = sim.pick("w", [("get_all_tasks",), ("delete_task",), ("get_all_tasks", "delete_task")])
            w.store_fault = lambda a, op, tid: "before" if a == broken and op in ops and sim.chance("f", 60) else None
        # ---------------- an executor which can't be shut down cleanly
        defect = None
        if sim.chance("w", 12):
            defect = sched.executors[sim.pick("w", sorted(ek))]
            genuine = defect.shutdown

            def boom(wait=True, genuine=genuine):
                genuine(wait)
                sim.fault("executor_shutdown_error")
                raise InjectedError("executor shutdown")
            defect.shutdown = boom
        # ---------------- shutdown
        t0, st0 = sim.mono, sim.stall_total
        who = sim.wpick("w", [(60, "main"), (15, "task"), (15, "listener"), (10, "twice")])
        if who in ("task", "listener") and nw and not broken:
            requester[0] = who
            end = sim.mono + 15 * US + sim.stall_total
            while requester[0] and sim.mono < end:
                sim.sleep(100_000)
            if requester[0]:
                requester[0] = None
                who = "main"
        else:
            who = "main" if who != "twice" else who
        if who in ("main", "twice"):
            box = []

            def go():
                try:
                    h.shutdown(wait=wait_flag[0], settle=False)
                    if h.mode == "native" and who == "main":
                        # the application's loop may end now
                        box.extend(c for c in w.calls if c.tag in mine and not c.ended)
                except SchedulerNotRunningError:
                    box.append("refused")
            reqs = [sim.spawn(go, name="down")]
            if who == "twice":
                reqs.append(sim.spawn(go, name="down2"))
            for r in reqs:
                if not sim.join(r, 60 * US + sim.stall_max_us * 10):
                    w.fail("stuck", f"shutdown({wait_flag[0]}) does not return: " + sim.stacks())
            if box and box[0] != "refused":
                w.fail("unfinished", f"the awaited shutdown returned while the shutdown task {box[0].tag} was running")
            if len(box) == len(reqs):
                w.fail("refused", "shutdown of a running scheduler was refused")
        end = sim.mono + 60 * US - sim.stall_total
        while (sched.running or seen[0] is None) and sim.mono < end + sim.stall_total:
            sim.sleep(20_000)
        if sched.running or seen[0] is None:
            w.fail("incomplete", f"shutdown({wait_flag[0]}) requested by {who} did not complete: running "
                                 f"{sched.running}, event {seen[0] is not None}; " + sim.stacks())
        s_down = seen[0][0]
        stop[0] = True
        if defect is not None:
            defect.__dict__.pop("shutdown", None)
        for t in ths:
            if not sim.join(t, 60 * US + sim.stall_max_us * 10):
                w.fail("client_stuck", "a management call did not return after the shutdown: " + sim.stacks())
        # coroutine shutdown tasks end before the loop does
        sim.sleep(3 * US + 2 * sim.stall_max_us)
        # ---------------- each shutdown task exactly once
        w.store_fault = None
        for tid, st in mine.items():
            cs = [c for c in w.calls if c.tag == tid]
            if broken == st:
                if len(cs) > 1:
                    w.fail("twice", f"shutdown task {tid} ran {len(cs)} times")
                downs[tid] = None
                continue
            if len(cs) != 1:
                w.fail("shutdown_task", f"shutdown task {tid} of store {st} ran {len(cs)} times during the shutdown "
                                        f"requested by {who} (wait={wait_flag[0]})")
            if not cs[0].ended or (cs[0].t1 - cs[0].t0 < cs[0].duration and cs[0].outcome != "cancel"):
                w.fail("cut_short", f"shutdown task {tid} was not finished")
            downs[tid] = 1
        # ---------------- pools have finished
        if wait_flag[0] and who != "twice":
            for s in w.subs:
                if s.result == "ok" and ek.get(s.ex) in ("thread", "process") and s.s0 < s_down:
                    done = [c for c in w.calls if c.tag == s.task_id and c.s0 > s.s0]
                    evs = [e for e in w.events if e.task_id == s.task_id and e.code in TERMINAL and
                           e.times and e.times[0] in s.times]
                    if not evs or min(e.seq for e in evs) > s_down:
                        w.fail("not_waited", f"shutdown(wait=True) completed before {s} of executor {s.ex} was finished")
                    del done
        n_ev = [e for e in w.events if e.code == EV.SCHEDULER_SHUTDOWN]
        if len(n_ev) != period + 1:
            w.fail("events", f"{len(n_ev)} shutdown events after {period + 1} periods")
        log.append(who)
        # broken stores: their shutdown tasks may still be there; start clean
        if broken:
            break
        sim.sleep(1)
    # ---------------- nothing of them runs again
    for tid, n in downs.items():
        cs = [c for c in w.calls if c.tag == tid]
        if n is not None and len(cs) != n:
            w.fail("twice", f"shutdown task {tid} ran {len(cs)} times")
    calm_down(sim)
    h.stop_app()
    w.close()
    sim.probe("shutdown_tasks", len(downs))
    return {"mode": h.mode, "isolated": h.isolated, "stores": kinds, "executors": ek, "requested_by": log,
            "shutdown_tasks": len(downs)}
