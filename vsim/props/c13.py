"""C13 Event listeners get every matching event once and cannot break the scheduler."""
from ..kernel import US, SimKilled, Violation
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C13"
RUNS_QUICK = 4000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"

MASKS = [EV.ALL_EVENTS, EV.ALL_EVENTS, EV.TASK_SUBMITTED | EV.TASK_EXECUTED | EV.TASK_ERROR | EV.TASK_MISSED,
         EV.TASK_ADDED | EV.TASK_REMOVED | EV.TASK_MODIFIED, EV.SCHEDULER_PAUSED | EV.SCHEDULER_RESUMED,
         EV.TASK_SUBMITTED, EV.TASK_EXECUTED, EV.SCHEDULER_START | EV.SCHEDULER_SHUTDOWN | EV.ALL_TASKS_REMOVED,
         EV.STORE_ADDED | EV.STORE_REMOVED | EV.EXECUTOR_ADDED | EV.EXECUTOR_REMOVED | EV.TASK_MAX_INSTANCES]


class Disp:
    """One call of dispatch_event."""
    __slots__ = ("n", "event", "code", "thread", "s0", "s1", "identity")


class Reg:
    """One registration of a listener."""
    __slots__ = ("n", "cb", "mask", "a0", "a1", "r0", "r1", "got", "behave", "budget", "obj", "calls")

    def on_event(self, event):
        return self.calls(self, event)


class ListenerBaseError(BaseException):
    pass


def run(sim):
    w = World(sim, ID)
    ek = sim.wpick("w", EXECS)
    inline = ek == "debug"
    skind = sim.wpick("w", STORES)
    mode = sim.wpick("w", MODES)
    ident = sim.pick("w", ["s", "node-1"])
    h = Host(w, mode, stores={"default": w.make_store(skind)}, executors={"default": w.make_executor(ek)},
             identity=ident)
    s = h.sched
    w.default_plan = Plan((0, 10_000) if inline else (0, 300_000), ((6, "ret"), (1, "exc")))
    disps = []
    regs = []
    active = []
    by_event = {}
    real = s.dispatch_event

    def tapped(event):
        d = Disp()
        d.n, d.event, d.code = len(disps), event, event.code
        d.thread, d.s0, d.s1 = sim.cur.name, w.seq(), None
        disps.append(d)
        if id(event) in by_event:
            w.fail("redispatched", f"{event!r} was dispatched twice")
        by_event[id(event)] = d
        try:
            return real(event)
        finally:
            d.s1 = w.seq()
    s.dispatch_event = tapped

    def delivered(reg, event):
        d = by_event.get(id(event))
        if d is None:
            w.fail("unknown_event", f"a listener got {event!r} which was not dispatched")
        if d.s1 is not None or d.thread != sim.cur.name:
            w.fail("detached", f"{EVNAME[d.code]} was delivered outside its dispatch")
        reg.got.append((d.n, w.seq()))
        d.identity = getattr(event, "scheduler_identity", "-")
        if hasattr(event, "task_id") and event.scheduler_identity != ident:
            w.fail("identity", f"{EVNAME[d.code]} of {event.task_id} carries the identity "
                               f"{event.scheduler_identity!r} instead of {ident!r}")
        b = reg.behave
        if b == "quiet" or not sim.chance("x", 35):
            return None
        if b == "raise":
            sim.fault("listener_raised")
            raise sim.pick("x", [InjectedError, ValueError, ListenerBaseError, SystemExit, KeyboardInterrupt,
                                 StopIteration, asyncio.CancelledError])("listener")
        if b == "block":
            sim.fault("listener_blocked")
            sim.sleep(sim.pick("x", [5_000, 200_000, 1 * US]))
            return None
        if reg.budget <= 0:
            return None
        reg.budget -= 1
        if b == "regs":
            change_listeners("x")
        elif b == "self":
            remove(reg)
        else:
            call("x", sim.pick("x", ["pause", "update", "get", "list", "add", "delete", "run"]))
        if sim.chance("x", 20):
            raise InjectedError("listener after calling back")

    def add(stream):
        r = Reg()
        r.n = len(regs)
        r.mask = sim.pick(stream, MASKS)
        r.behave = sim.wpick(stream, [(4, "quiet"), (4, "raise"), (2, "block"), (2, "regs"), (2, "self"), (2, "call")])
        r.budget = 4
        r.got = []
        r.r0 = r.r1 = None
        r.calls = delivered
        r.obj = sim.pick(stream, [False, True])
        r.cb = (lambda e, r=r: delivered(r, e))
        regs.append(r)
        r.a1 = None
        r.a0 = w.seq()
        cb = r.on_event if r.obj else r.cb       # a bound method is a new object each time
        if r.mask == EV.ALL_EVENTS and sim.pick(stream, [0, 1]):
            s.add_listener(cb)
        else:
            s.add_listener(cb, r.mask)
        r.a1 = w.seq()
        active.append(r)

    def remove(r):
        if r in active:
            active.remove(r)
        elif r.r0 is not None:
            return
        r.r0 = w.seq()
        ok = s.remove_listener(r.on_event if r.obj else r.cb)
        r.r1 = w.seq()
        if not ok:
            w.fail("remove", f"remove_listener of a registered listener returned {ok}")

    def change_listeners(stream):
        if active and sim.chance(stream, 50):
            remove(sim.pick(stream, active))
        elif len(regs) < 14:
            add(stream)
        elif s.remove_listener(lambda e: None):
            w.fail("remove", "remove_listener of an unknown listener returned True")

    expected = []       # (seq0, seq1, thread, codes, task_id)

    def call(stream, a):
        """One call on the task t1; each successful one has exactly one event of its own."""
        b, me = w.seq(), sim.cur.name
        want = ()
        up = s.running        # before the start has finished tasks are only kept for it
        try:
            if a == "add":
                s.add_task(taskfns.job, "interval", seconds=2, id="t1", args=["t1"], mistrigger_grace_time=None,
                           max_instances=50)
                want = (EV.TASK_ADDED,)
            elif a == "delete":
                s.delete_task("t1")
                want = (EV.TASK_REMOVED,)
            elif a == "pause":
                s.pause_task("t1")
                want = (EV.TASK_MODIFIED,)
            elif a == "update":
                s.update_task("t1", name=f"n{sim.fresh()}")
                want = (EV.TASK_MODIFIED,)
            elif a == "reschedule":
                s.reschedule_task("t1", trigger="interval", seconds=3)
                want = (EV.TASK_MODIFIED,)
            elif a == "resume":
                s.resume_task("t1")
                want = (EV.TASK_MODIFIED,)
            elif a == "run":
                h.run_task("t1")
                want = (EV.TASK_SUBMITTED,)
            elif a == "clear":
                s.remove_all_tasks("extra")
                want = (EV.ALL_TASKS_REMOVED,)
            elif a == "get":
                s.get_task("t1")
            elif a == "spause":
                s.pause()
            elif a == "sresume":
                s.resume()
            elif a == "store":
                s.add_store(w.make_store("memory"), f"m{sim.fresh()}")
                want = (EV.STORE_ADDED,)
            elif a == "executor":
                s.add_executor(w.make_executor("thread"), f"e{sim.fresh()}")
                want = (EV.EXECUTOR_ADDED,)
            else:
                s.get_task_infos()
        except (TaskLookupError, ConflictIdError, MaximumInstancesError):
            want = ()
        except (SimKilled, Violation):
            raise
        except BaseException as e:
            w.fail("broken_call", f"{a} failed with {type(e).__name__}: {e}")
        expected.append((b, w.seq(), me, a, want if up else ()))

    spec = Spec(id="t0")
    spec.trigger, spec.ref, spec.desc = gen_trigger(sim, w.wall(), ("interval", "cron"))
    for _ in range(sim.rint("w", 1, 4)):
        add("w")
    style_for_run(sim, calm=20)
    spec.add(s, w.wall)
    h.start()
    spec.t_hi = w.wall()
    call("w", "add")

    def client(k):
        for _ in range(sim.rint("w", 3, 9)):
            if sim.chance("w", 70):
                sim.sleep(sim.pick("w", [300_000, 50_000, 1 * US, 900_000]))
            if sim.chance("w", 35):
                change_listeners("w")
            else:
                call("w", sim.pick("w", ["add", "delete", "pause", "update", "reschedule", "resume", "run", "get", "list",
                                         "clear", "store", "executor"] + (["spause", "sresume"] if k == 0 else [])))
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 2, 3]))]
    for t in ths:
        sim.join(t)
    s.resume()
    t_end = quiesce(w, h, 1)
    for r in regs:
        r.behave = "quiet"
    sim.sleep(2 * US)
    s.pause()
    sim.sleep(400_000)
    # later scheduling was not disturbed
    check_schedule(w, spec, t_end, stored_next(s, spec), alive=True)
    h.shutdown(wait=True)
    sim.sleep(1 * US)
    # each call has its event
    for b, e, th, a, want in expected:
        mine = [d for d in disps if d.thread == th and b < d.s0 and d.s1 < e]
        for code in want:
            n = sum(d.code == code for d in mine)
            if n != 1 and not any(p is not None and p[0] > b and p[1] < e and p[2] == th for p in expected):
                # no nested call of a listener inside it
                w.fail("no_event", f"{a} has {n} events {EVNAME[code]}: {[EVNAME[d.code] for d in mine]}")
    if w.events and [e.code for e in w.events] and len(w.events) != len(disps):
        w.fail("recorder", f"the first listener got {len(w.events)} of {len(disps)} events")
    # each listener got what was dispatched
    total = 0
    for r in regs:
        seen = {}
        last = {}
        for n, q in r.got:
            d = disps[n]
            total += 1
            if n in seen:
                w.fail("twice", f"listener {r.n} ({r.behave}) got {EVNAME[d.code]} (dispatch {n}) twice")
            seen[n] = q
            if not d.code & r.mask:
                w.fail("mask", f"listener {r.n} with mask {r.mask} got {EVNAME[d.code]}")
            if d.s1 is not None and d.s1 < r.a0:
                w.fail("too_early", f"listener {r.n} got {EVNAME[d.code]} from before it was added")
            if r.r1 is not None and d.s0 > r.r1:
                w.fail("removed", f"listener {r.n} got {EVNAME[d.code]} dispatched after it was removed")
            p = last.get(d.thread)
            if p is not None and p.s0 > d.s0 and p.s0 > d.s1:
                w.fail("order", f"listener {r.n} got {EVNAME[d.code]} after the later {EVNAME[p.code]}")
            last[d.thread] = d
        for d in disps:
            if d.code & r.mask and d.n not in seen and d.s1 is not None and r.a1 is not None and d.s0 > r.a1 and \
                    (r.r0 is None or d.s1 < r.r0):
                w.fail("lost", f"listener {r.n} ({r.behave}, mask {r.mask}) never got {EVNAME[d.code]} "
                               f"(dispatch {d.n}) although it was registered all the time")
    sim.probe("dispatches", len(disps))
    sim.probe("deliveries", total)
    sim.probe("registrations", len(regs))
    sim.probe("removed", sum(r.r0 is not None for r in regs))
    h.stop_app()
    w.close()
    return {"executor": ek, "store": skind, "dispatches": len(disps), "deliveries": total,
            "listeners": [(r.behave, r.mask, len(r.got)) for r in regs]}
