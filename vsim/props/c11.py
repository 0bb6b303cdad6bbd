"""C11 Schedulers sharing a store and lock path never run a due task twice."""
import errno

from ..kernel import US, Proc
from .. import fs as fsmod
from ..world import *  # noqa
from ..workload import *  # noqa

ID = "C11"
RUNS_QUICK = 4000
RUNS_THOROUGH = 200000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["asyncz schedulers, stores, executors, triggers, file locks (asyncz.locks, asyncz.file_locking)",
        "CPython asyncio, concurrent.futures, redis-py client, SQLAlchemy + SQLite"]
STUB = ["operating system processes, flock and file system (model)", "redis server, mongo client+server (model)",
        "thread scheduling, clock"]
KINDS = [(3, "file"), (3, "redis"), (2, "mongo"), (3, "sql")]
FAR = 1 << 60


def run(sim):
    w = World(sim, ID)
    w.record_store_ops = True
    aliases = ["default", "b"][:sim.pick("w", [1, 1, 2])]
    kinds = {a: sim.wpick("w", KINDS) for a in aliases}
    pat = sim.pick("w", ["{store}.lock", "{store}.lock", "one.lock"])
    retry = sim.pick("w", [2, 3, 5])
    nhosts = sim.pick("w", [2, 2, 3])
    ek = sim.wpick("w", [(40, "thread"), (40, "asyncio"), (15, "debug")])
    inline = ek == "debug"
    w.default_plan = Plan((0, 10_000) if inline else (0, 200_000))
    hosts = []       # live hosts
    crashed = {}     # proc -> seq of its crash
    ended = []

    def inproc(p, fn, what, limit=120 * US):
        box = []

        def go():
            try:
                box.append(("ok", fn()))
            except Exception as e:  # noqa
                box.append(("exc", e))
        t = sim.spawn(go, name=f"{what}.{p.name}", proc=p)
        if not sim.join(t, limit + 10 * sim.stall_max_us):
            w.fail("stuck", f"{what} in {p.name} does not return: " + sim.stacks())
        if not box:
            return None          # the process crashed
        if box[0][0] == "exc":
            raise box[0][1]
        return box[0][1]

    def launch():
        p = Proc(f"P{len(hosts) + len(ended)}.{sim.fresh()}")

        def go():
            h = Host(w, "thread", name=p.name, proc=p, stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
                     executors={"default": w.make_executor(ek, **({"max_workers": 4} if ek == "thread" else {}))},
                     lock_path=f"{fsmod.ROOT}/{pat}", store_retry_interval=retry,
                     startup_delay=sim.pick("w", [0, 1]))
            h.start()
            return h
        h = inproc(p, go, "start")
        hosts.append(h)
        return h

    def align():
        """Run times fall on full seconds: what happens there meets passes in progress."""
        step = US - w.wall() % US
        sim.sleep(sim.pick("f", [0, step, step, step]))

    on = [False]
    lockfault = sim.chance("w", 25)
    if lockfault:
        def plan(op, path):
            path = str(path)
            if on[0] and path.endswith(".lock") and path.count("/") == fsmod.ROOT.count("/") + 1 and sim.chance("f", 10):
                return {"open_w": errno.EMFILE, "flock": errno.ENOLCK}.get(op)
            return None
        w.fs.fault_plan = plan
    launch()
    specs = []

    def add():
        if len(specs) >= 6:
            return
        h = sim.pick("w", hosts)
        sp = gen_spec(sim, len(specs), w.wall(), {"default": ek}, aliases, explicit=False)
        inproc(h.proc, lambda: sp.add(h.sched, w.wall), "add")
        specs.append(sp)
    for _ in range(sim.rint("w", 1, 3)):
        add()
    style = style_for_run(sim, calm=20, stall_max_us=1 * US)
    on[0] = True
    if sim.chance("w", 50):
        # several at the same moment
        ts = [sim.spawn(launch, name=f"launch{k}") for k in range(nhosts - 1)]
        for t in ts:
            sim.join(t)
    while len(hosts) < nhosts:
        sim.sleep(sim.pick("w", [0, 1000, 700_000, 2 * US]))
        launch()
    for _ in range(sim.rint("w", 0, 6)):
        sim.sleep(sim.pick("w", [0, 300_000, 1 * US, 2_500_000]))
        op = sim.wpick("w", [(3, "add"), (4, "stop"), (3, "crash"), (3, "launch"), (2, "wake")])
        if op == "add":
            add()
        elif op == "stop" and len(hosts) > 1:
            h = hosts.pop(sim.rint("w", 0, len(hosts) - 1))
            align()
            inproc(h.proc, lambda: h.shutdown(wait=bool(sim.pick("w", [0, 1])), settle=True), "stop")
            ended.append(h)
        elif op == "crash" and len(hosts) > 1:
            h = hosts.pop(sim.rint("w", 0, len(hosts) - 1))
            align()
            for _ in range(sim.rint("f", 0, 60)):
                sim.point("w")
            sim.fault("crash")
            crashed[h.proc] = sim.next_seq()
            sim.crash(h.proc)
            ended.append(h)
        elif op == "launch" and len(hosts) < 4:
            align()
            launch()
        elif op == "wake":
            # an application nudging its scheduler, and one that restarts it
            h = sim.pick("w", hosts)
            inproc(h.proc, h.sched.wakeup, "wake")
    sim.sleep(sim.pick("w", [2, 6]) * US)
    # ---------------- faults stop
    on[0] = False
    late = 2 * sim.stall_max_us if style and sim.stalls else 0
    calm_down(sim)
    t_clear = w.wall()
    sim.sleep(late + 100_000)
    for h in hosts:
        inproc(h.proc, h.sched.wakeup, "wake")
    # whoever lost the race for the lock comes back after the retry interval
    sim.sleep(retry * US + 500_000 + (200_000 if inline else 0))
    for h in hosts:
        inproc(h.proc, h.sched.pause, "pause")
    t_end = w.wall() - late
    sim.sleep(300_000)
    # ---------------- at most one at a time
    for s in w.subs:
        mine = [q for q, a, p in w.due_log if a == s.store and p is s.proc and q < s.s0]
        if not mine:
            w.fail("no_query", f"{s} without a due query")
        other = [p for q, a, p in w.due_log if a == s.store and p is not s.proc and mine[-1] < q < s.s0
                 and s.proc not in crashed]
        if other:
            w.fail("exclusion", f"{other[0]} queried store {s.store} between the due query of {s.proc} and its hand-over "
                                f"{s} at {w.rel(s.t0)}")
    # ---------------- every run time by exactly one of them
    h = hosts[0]
    for sp in specs:
        now = inproc(h.proc, lambda sp=sp: stored_next(h.sched, sp), "get")
        check(w, sp, t_end, now, crashed, t_clear, 500_000 + (200_000 if inline else 0))
    sim.probe("hosts", len(hosts) + len(ended))
    sim.probe("hand_overs", len(w.subs))
    sim.probe("submitting_hosts", len({s.proc for s in w.subs}))
    sim.probe("crashes", len(crashed))
    for h in hosts:
        inproc(h.proc, lambda h=h: h.shutdown(wait=False), "stop")
    w.close()
    return {"stores": kinds, "lock": pat, "hosts": len(hosts) + len(ended), "executor": ek, "tasks": [repr(s) for s in specs],
            "hand_overs": len(w.subs)}


def check(w, sp, t_end, now, crashed, t_clear, slack):
    atts = [s for s in w.subs if s.task_id == sp.id and s.store == sp.store]
    ref = sp.ref
    states = set(expected_starts(sp))
    recs = [o for o in w.store_ops if o[1] == sp.store and o[3] == sp.id and o[2] in ("update_task", "delete_task")]
    for k, a in enumerate(atts):
        if not a.times or any(x >= y for x, y in zip(a.times, a.times[1:])):
            w.fail("order", f"{sp}: run times out of order {a.times}")
        if a.times[-1] > a.t0:
            w.fail("early", f"{sp}: run time {w.rel(a.times[-1])} submitted at {w.rel(a.t0)}")
        if a.result not in ("ok", "max") and a.proc not in crashed:
            w.fail("refused", f"{sp}: {a} was refused")
        nxt = set()
        died = crashed.get(a.proc)
        for c in states:
            if c is None:
                continue
            seq = chain(ref, c, a.times[-1])
            if seq is None or seq[-1] != a.times[-1]:
                continue
            if (seq[-1:] if sp.coalesce else seq) != a.times:
                continue
            nxt.add(ref.after(a.times[-1]))
            hi = atts[k + 1].s0 if k + 1 < len(atts) else FAR
            if died is not None and died < hi and not any(a.s0 < o[0] < min(died, hi) for o in recs):
                nxt.add(c)           # its process died before the hand-over was recorded
        if not nxt:
            prev = atts[k - 1] if k else None
            w.fail("twice" if prev and prev.times[-1] >= a.times[0] else "sequence",
                   f"{sp}: hand-over {k} by {a.proc.name} has run times {[w.rel(x) for x in a.times]} at {w.rel(a.t0)}, "
                   f"expected to continue from {[w.rel(c) for c in states]}; before: {prev} "
                   f"by {prev and prev.proc.name}")
        states = nxt
    ok = [c for c in states if c is not None]
    gone_ok = None in states or not states
    if now == "gone":
        if not gone_ok:
            w.fail("vanished", f"{sp}: the task is gone but {[w.rel(c) for c in ok]} is still to come")
        return
    if now is None:
        if not gone_ok or atts:
            w.fail("paused", f"{sp}: the task was left without a next run time")
        return
    if now not in ok and not (gone_ok and atts):
        w.fail("next_run", f"{sp}: stored next run time is {w.rel(now)}, expected {[w.rel(c) for c in ok]}")
    if now <= t_end - slack and now <= t_clear:
        w.fail("lost", f"{sp}: run time {w.rel(now)} was not submitted within one retry interval after the faults "
                       f"stopped (now {w.rel(t_end)})")
