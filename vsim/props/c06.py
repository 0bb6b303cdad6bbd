"""C06 Nested start and shutdown: one running period, nothing runs outside it."""
from ..kernel import US
from ..storetools import Backend, store_exc
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C06"
RUNS_QUICK = 5000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"
LIFE = (EV.SCHEDULER_START, EV.SCHEDULER_SHUTDOWN)


def run(sim):
    if sim.chance("w", 35):
        return concurrent(sim)
    return sequential(sim)


def build(sim, w):
    skind = sim.wpick("w", STORES)
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:sim.pick("w", [1, 2])]}
    mode = sim.wpick("w", MODES + [(15, "native_iso")])
    h = Host(w, mode, stores={"default": w.make_store(skind, where="a")},
             executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {}))
                        for a, k in ek.items()}, store_retry_interval=3)
    inline = "debug" in ek.values()
    w.default_plan = Plan((0, 10_000) if inline else (0, 0, 300_000))
    return h, skind, ek, inline


def life(w):
    return [EVNAME[e.code] for e in w.events if e.code in LIFE]


class Model:
    """Reference: nesting count and state."""

    def __init__(self):
        self.ref = 0
        self.state = "stopped"
        self.expect = []         # expected life cycle events in order


def sequential(sim):
    w = World(sim, ID)
    h, skind, ek, inline = build(sim, w)
    persistent = skind != "memory"
    m = Model()
    sched = h.sched
    specs = []       # live specs (their reference schedule holds over the whole run)
    pend = []
    stopped = [(0, None)]      # [from seq, to seq] where nothing may be submitted
    paused = []                # [from t, to t, from seq, to seq]
    errs = store_exc()
    style = style_for_run(sim, calm=40)

    def life_events():
        return [EVNAME[e.code] for e in w.events if e.code in LIFE + (EV.SCHEDULER_PAUSED, EV.SCHEDULER_RESUMED)]

    def check(what):
        st = {0: "stopped", 1: "running", 2: "paused"}[int(sched.state)]
        if st != m.state:
            w.fail("state", f"after {what}: the scheduler is {st}, expected {m.state} (nesting {m.ref})")
        if sched.running != (m.state != "stopped"):
            w.fail("running", f"after {what}: running is {sched.running} in state {m.state}")
        ev = life_events()
        if ev != m.expect:
            w.fail("events", f"after {what}: life cycle events {ev}, expected {m.expect}")

    def start(pz=False, failing=False):
        if failing and m.ref == 0:
            kind = sim.pick("w", ["store", "executor", "pending"])
            undo = None
            hit = [False]
            if kind == "executor":
                ex = sched.executors[sim.pick("w", sorted(ek))]

                def boom(*a, **k):
                    hit[0] = True
                    sim.fault("executor_start_error")
                    raise InjectedError("executor start")
                ex.start = boom
                undo = lambda: ex.__dict__.pop("start", None)  # noqa
            elif kind == "store" and skind != "memory":
                be = Backend(w, skind, "a")
                n = [sim.rint("f", 0, 3)]

                def flt():
                    if sched.running:       # the pass that follows the start
                        return None
                    n[0] -= 1
                    hit[0] = hit[0] or n[0] < 0
                    return "before" if n[0] < 0 else None
                be.set_fault(flt)
                undo = lambda: be.set_fault(None)  # noqa
            else:
                n = [sim.rint("f", 0, 2)]

                def tap(alias, op, tid):
                    if op != "add_task" or sched.running:
                        return None
                    n[0] -= 1
                    hit[0] = hit[0] or n[0] < 0
                    return "before" if n[0] < 0 else None
                w.store_fault = tap
                undo = lambda: setattr(w, "store_fault", None)  # noqa
            lo, s0 = w.wall(), sim.next_seq()
            try:
                h.start()
            except errs:
                undo()
                sim.probe("start_failed")
                for sp in pend:      # pending tasks may have got their first run time already
                    if sp.t_lo is None:
                        sp.t_lo = lo
                check("a failed start")
                return
            undo()
            # the fault did not hit the start (what follows it was an asynchronous pass): a normal start
            began(lo, False, s0)
            return
        lo, s0 = w.wall(), sim.next_seq()
        r = h.start(paused=pz)
        if bool(r) != (m.ref == 0):
            w.fail("start_result", f"start() returned {r} at nesting {m.ref}")
        if m.ref == 0:
            began(lo, pz, s0)
        else:
            m.ref += 1
        check("start")

    def began(lo, pz, s0):
        m.ref = 1
        m.state = "paused" if pz else "running"
        m.expect.append("SCHEDULER_START")
        stopped[-1] = (stopped[-1][0], s0)
        if pz:
            paused.append([w.wall(), None, s0, None])
        for sp in pend:
            sp.t_lo, sp.t_hi = lo if sp.t_lo is None else sp.t_lo, w.wall()
        specs.extend(pend)
        pend.clear()

    def shutdown():
        if m.ref == 0:
            try:
                h.shutdown(wait=False)
            except SchedulerNotRunningError:
                check("an unmatched shutdown")
                return
            w.fail("unmatched", "shutdown of a stopped scheduler was accepted")
        h.shutdown(wait=bool(sim.pick("w", [0, 1])), settle=False)
        m.ref -= 1
        if m.ref == 0:
            if not h.settle(60):
                w.fail("not_stopped", "the matching shutdown did not stop the scheduler: " + sim.stacks())
            end = sim.mono + 60 * US
            while life(w)[-1:] != ["SCHEDULER_SHUTDOWN"] and sim.mono < end:
                sim.sleep(10_000)
            m.state = "stopped"
            m.expect.append("SCHEDULER_SHUTDOWN")
            stopped.append((sim.next_seq(), None))
            for p in paused:
                if p[1] is None:
                    p[1], p[3] = w.wall(), sim.next_seq()
            if not persistent:
                for sp in specs:
                    sp.gone = True
        else:
            sim.sleep(20_000 + (2 * sim.stall_max_us if style else 0))
        check("shutdown")

    def pause():
        try:
            h.in_loop(sched.pause) if sim.chance("w", 30) and m.ref else sched.pause()
        except SchedulerNotRunningError:
            if m.ref:
                w.fail("pause_refused", f"pause() refused in state {m.state}")
            check("a refused pause")
            return
        if not m.ref:
            w.fail("pause_accepted", "pause() of a stopped scheduler was accepted")
        if m.state == "running":
            m.state = "paused"
            m.expect.append("SCHEDULER_PAUSED")
            paused.append([w.wall(), None, sim.next_seq(), None])
        check("pause")

    armed = [None]

    def hook(c):
        # a task which pauses the scheduler it runs in
        if armed[0] == "armed":
            armed[0] = "busy"
            sched.pause()
            armed[0] = sim.next_seq()

    w.default_plan.hook = hook

    def pause_from_task():
        if m.state != "running":
            return
        armed[0] = "armed"
        end = sim.mono + 6 * US
        while (armed[0] == "armed" and sim.mono < end) or armed[0] == "busy":
            sim.sleep(50_000)
        seq, armed[0] = armed[0], None
        if seq != "armed":
            sim.probe("paused_from_task")
            m.state = "paused"
            m.expect.append("SCHEDULER_PAUSED")
            paused.append([w.wall(), None, seq, None])
            check("a pause by a task")

    def resume():
        if m.state == "paused":
            paused[-1][1], paused[-1][3] = w.wall(), sim.next_seq()
        try:
            h.in_loop(sched.resume) if sim.chance("w", 30) and m.ref else sched.resume()
        except SchedulerNotRunningError:
            if m.ref:
                w.fail("resume_refused", f"resume() refused in state {m.state}")
            check("a refused resume")
            return
        if not m.ref:
            w.fail("resume_accepted", "resume() of a stopped scheduler was accepted")
        if m.state == "paused":
            m.state = "running"
            m.expect.append("SCHEDULER_RESUMED")
        check("resume")

    def add():
        if len(specs) + len(pend) >= 5:
            return
        sp = gen_spec(sim, len(specs) + len(pend), w.wall(), ek, ["default"], kinds=("interval", "cron", "date"))
        sp.gone = False
        sp.add(sched, w.wall)
        if m.ref == 0:
            sp.t_lo = sp.t_hi = None
            pend.append(sp)
        else:
            specs.append(sp)

    check("construction")
    for _ in range(sim.rint("w", 0, 2)):
        add()
    for _ in range(sim.rint("w", 4, 14)):
        op = sim.wpick("w", [(5, "start"), (2, "start_paused"), (2, "start_fail"), (5, "shutdown"), (2, "pause"), (2, "task_pause"),
                             (3, "resume"), (3, "add"), (2, "app")])
        if op == "start":
            start()
        elif op == "start_paused":
            start(pz=True)
        elif op == "start_fail":
            start(failing=True)
        elif op == "shutdown":
            shutdown()
        elif op == "pause":
            pause()
        elif op == "task_pause":
            pause_from_task()
        elif op == "resume":
            resume()
        elif op == "app":
            if m.ref == 0:
                h.new_app()
        else:
            add()
        sim.sleep(sim.pick("w", [0, 700_000, 2 * US, 5 * US]))
    # ---------------- whatever happened: it can be started and schedules normally
    if m.ref == 0:
        start()
    elif m.state == "paused":
        resume()
    add()
    t_end = quiesce(w, h, 3)
    for sp in specs:
        if sp.gone:
            continue
        check_schedule(w, sp, t_end, stored_next(sched, sp), horizon_slack=US if not inline else 20 * US)
    for s in w.subs:
        if s.result.startswith("error"):
            w.fail("refused", f"executor refused {s.task_id} at {w.rel(s.t0)}: {s.result}")
        for a, b in stopped:
            if a < s.s0 < (b or 1 << 60):
                w.fail("outside", f"{s} was handed over at {w.rel(s.t0)} while the scheduler was stopped")
        for a, b, sa, sb in paused:
            if sa < s.s0 < (sb or 1 << 60):
                w.fail("while_paused", f"{s} was handed over at {w.rel(s.t0)}, paused from {w.rel(a)} to {w.rel(b)}")
    while m.ref:
        shutdown()
    n = len(w.subs)
    sim.sleep(3 * US)
    if len(w.subs) != n:
        w.fail("outside", f"{w.subs[n]} was handed over after the shutdown")
    h.stop_app()
    w.close()
    sim.probe("periods", m.expect.count("SCHEDULER_START"))
    return {"mode": h.mode, "isolated": h.isolated, "store": skind, "executors": ek, "life": m.expect}


def concurrent(sim):
    """Several users of one scheduler, each with balanced starts and shutdowns."""
    w = World(sim, ID)
    h, skind, ek, inline = build(sim, w)
    sched = h.sched
    style = style_for_run(sim, calm=15)
    bad = []
    firsts = [0]
    if h.mode != "thread":
        h.ensure_loop()
    via_app = h.mode != "thread" or sim.chance("w", 0)

    def user(k):
        try:
            for _ in range(sim.rint("w", 1, 3)):
                sim.sleep(sim.pick("w", [0, 0, 1000, 500_000]))
                if h.start():
                    firsts[0] += 1
                if not sched.running:
                    bad.append(("not_running", "the scheduler is not running although start() returned and no matching "
                                               "shutdown was requested"))
                if sim.chance("w", 30):
                    # a task added while somebody holds the scheduler open is scheduled
                    tid = f"u{sim.fresh()}"
                    sched.add_task(taskfns.job, "date", run_at=from_us(w.wall()), args=[tid], id=tid,
                                   mistrigger_grace_time=None)
                    end = sim.mono + 10 * US - sim.stall_total
                    while not any(s.task_id == tid for s in w.subs):
                        if sim.mono > end + sim.stall_total:
                            bad.append(("unscheduled", f"a due task was not submitted within 10 s while the scheduler "
                                                       f"was held open"))
                            break
                        sim.sleep(100_000)
                else:
                    sim.sleep(sim.pick("w", [0, 1000, 800_000]))
                if not sched.running:
                    bad.append(("not_running", "the scheduler stopped although one start() was not matched yet"))
                h.shutdown(wait=bool(sim.pick("w", [0, 1])), settle=False)
        except Exception as e:  # noqa
            bad.append(("raised", f"user {k}: {type(e).__name__}: {e}"))
    n = sim.rint("w", 2, 4)
    ths = [sim.spawn(lambda k=k: user(k), name=f"user{k}") for k in range(n)]
    for t in ths:
        if not sim.join(t, 200 * US):
            w.fail("stuck", "start/shutdown does not return: " + sim.stacks())
        if bad:
            w.fail(*bad[0])
    if bad:
        w.fail(*bad[0])
    calm_down(sim)
    if not h.settle(60):
        w.fail("still_running", "all starts are matched by shutdowns but the scheduler still runs")
    sim.sleep(1 * US + 2 * sim.stall_max_us)
    ev = life(w)
    if any(x == y for x, y in zip(ev, ev[1:])) or ev[:1] != ["SCHEDULER_START"] or ev[-1:] != ["SCHEDULER_SHUTDOWN"]:
        w.fail("events", f"life cycle events {ev}")
    if firsts[0] != ev.count("SCHEDULER_START"):
        w.fail("start_result", f"{firsts[0]} starts reported to be the first, events {ev}")
    # afterwards it works as ever
    sp = gen_spec(sim, 0, w.wall(), ek, ["default"], explicit=False)
    sp.add(sched, w.wall)
    sp.t_lo = w.wall()
    if not h.start():
        w.fail("start_result", "start() of the stopped scheduler was not the first")
    sp.t_hi = w.wall()
    t_end = quiesce(w, h, 6)
    check_schedule(w, sp, t_end, stored_next(sched, sp), horizon_slack=US if not inline else 20 * US)
    h.shutdown(wait=False)
    if sched.running:
        w.fail("not_stopped", "the last shutdown did not stop the scheduler")
    h.stop_app()
    w.close()
    sim.probe("users", n)
    sim.probe("concurrent_periods", ev.count("SCHEDULER_START"))
    return {"mode": h.mode, "isolated": h.isolated, "store": skind, "users": n, "life": ev}
