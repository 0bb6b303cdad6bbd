"""C02 Each submitted run ends in exactly one truthful outcome."""
from ..kernel import US
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C02"
RUNS_QUICK = 6000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"


class XSpec(Spec):
    pass


def run(sim):
    w = World(sim, ID)
    nex = sim.pick("w", [1, 2])
    ek = {a: sim.wpick("w", EXECS) for a in ["default", "x"][:nex]}
    workers = {a: sim.pick("w", [4, 1, 2]) for a in ek}
    stores = {"default": w.make_store(sim.wpick("w", STORES))}
    mode = sim.wpick("w", MODES)
    h = Host(w, mode, stores=stores, executors={
        a: w.make_executor(k, **({"max_workers": workers[a]} if k in ("thread", "process") else {}))
        for a, k in ek.items()})
    inline = "debug" in ek.values()
    durs = (0, 10_000, 60_000) if inline else sim.pick("w", [(0, 30_000), (0, 300_000, 1_200_000),
                                                             (0, 900_000, 2_500_000, 4 * US)])
    w.default_plan = Plan(durs, [(6, "ret"), (2, "exc"), (1, "none")])
    n = sim.rint("w", 1, 4)
    specs = []
    t0 = w.wall()
    for i in range(n):
        sp = gen_spec(sim, i, t0, ek, ["default"], max_choices=(50, 3, 1), graces=(None, 1, 3, 0.5, 30))
        sp.args = [sp.id] + [sim.rint("w", 0, 9) for _ in range(sim.rint("w", 0, 2))]
        sp.kw = {"k": i} if sim.chance("w", 50) else {}
        sp.add(h.sched, w.wall, args=sp.args, kwargs=sp.kw)
        specs.append(sp)
    style = style_for_run(sim, calm=40)
    h.start()
    runs = []

    def client():
        for _ in range(sim.rint("w", 1, 4)):
            sim.sleep(sim.pick("w", [100_000, 700_000, 2 * US, 5 * US]))
            sp = sim.pick("w", specs)
            try:
                h.run_task(sp.id, remove_finished=False)
                runs.append(sp.id)
            except (TaskLookupError, MaximumInstancesError):
                pass
    t = sim.spawn(client, name="client") if sim.chance("w", 40) else None
    sim.sleep(sim.pick("w", [8, 15, 30]) * US)
    if t:
        sim.join(t)
    # no new submissions any more; let everything that was submitted finish
    stop = sim.chance("w", 25)
    cut = set()
    if stop:
        # the scheduler is shut down while runs are in progress: pools finish them
        sim.fault("shutdown_with_runs_in_progress")
        s0 = sim.next_seq()
        h.shutdown(wait=bool(sim.pick("w", [0, 1])))
        if "asyncio" in ek.values():
            cut = {s.n for s in w.subs if ek[s.ex] == "asyncio"}
    for sp in () if stop else specs:
        try:
            h.sched.pause_task(sp.id)
        except TaskLookupError:
            pass
    if stop:
        calm_down(sim)
        sim.sleep(US)
    else:
        quiesce(w, h, 1)
    total = sum(len(s.times) for s in w.subs if s.result == "ok")
    sim.sleep(total * max(durs) + 2 * US)
    check_outcomes(w, {sp.id: sp for sp in specs}, ek, calm=style == 0, cut=cut)
    sim.probe("runs", len(w.calls))
    for c, name in ((EV.TASK_EXECUTED, "executed"), (EV.TASK_ERROR, "error"), (EV.TASK_MISSED, "missed")):
        sim.probe(name, sum(e.code == c for e in w.events))
    if not stop:
        h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"mode": mode, "executors": ek, "tasks": [repr(s) for s in specs], "runs": len(w.calls)}


def check_outcomes(w, specs, ek, calm, cut=()):
    """cut: submissions which a shutdown may have cancelled."""
    used = set()
    bycall = {c.n: c for c in w.calls}
    for tid, sp in specs.items():
        subs = [s for s in w.subs if s.task_id == tid and s.result == "ok"]
        want, maybe = {}, {}
        for s in subs:
            for t in s.times:
                want[t] = want.get(t, 0) + 1
                if s.n in cut:
                    maybe[t] = maybe.get(t, 0) + 1
        got = {}
        for e in w.events:
            if e.task_id == tid and e.code in TERMINAL:
                if e.event.store != sp.store:
                    w.fail("store", f"{sp}: outcome names store {e.event.store}")
                if e.event.scheduler_identity != "s":
                    w.fail("identity", f"{sp}: outcome carries identity {e.event.scheduler_identity!r}")
                got.setdefault(e.times[0], []).append(e)
        for t, k in want.items():
            if not k - maybe.get(t, 0) <= len(got.get(t, ())) <= k:
                w.fail("count", f"{sp}: run {w.rel(t)} was submitted {k} times and concluded by {got.get(t)}")
        for t in got:
            if t not in want:
                w.fail("unsubmitted", f"{sp}: outcome for run {w.rel(t)} that was not submitted: {got[t]}")
        outcome = {}
        for e in sorted((e for evs in got.values() for e in evs), key=lambda e: e.seq):
            t = e.times[0]
            if True:
                if e.code == EV.TASK_MISSED:
                    if sp.grace is None or e.t - t <= sp.grace * US:
                        w.fail("missed", f"{sp}: run {w.rel(t)} reported missed at {w.rel(e.t)} within its grace time")
                    outcome.setdefault(t, []).append((e, None))
                    continue
                if e.code == EV.TASK_EXECUTED:
                    v = e.event.return_value
                    if v is None:
                        cand = [c for c in w.calls if c.tag == tid and c.outcome == "none" and c.n not in used
                                and c.ended and c.t1 <= e.t]
                        if not cand:
                            w.fail("value", f"{sp}: run {w.rel(t)} reported executed with None but no call returned None")
                        n = cand[0].n
                    else:
                        n = int(v[1:]) if isinstance(v, str) and v[:1] == "r" and v[1:].isdigit() else None
                        if n is None or bycall[n].outcome != "ret":
                            w.fail("value", f"{sp}: run {w.rel(t)} reported return value {v!r}")
                else:
                    x = e.event.exception
                    if type(x) is not taskfns.JobError or not x.args or bycall.get(x.args[0]) is None or \
                            bycall[x.args[0]].outcome != "exc":
                        w.fail("value", f"{sp}: run {w.rel(t)} reported error {x!r}")
                    n = x.args[0]
                    if not e.event.traceback or "call_finish" not in e.event.traceback:
                        w.fail("traceback", f"{sp}: error of run {w.rel(t)} has traceback {e.event.traceback!r}")
                c = bycall[n]
                if c.tag != tid:
                    w.fail("foreign", f"{sp}: run {w.rel(t)} reports the result of a call for {c.tag}")
                if n in used:
                    w.fail("reused", f"{sp}: call {n} reported for two runs")
                used.add(n)
                outcome.setdefault(t, []).append((e, c))
        # grace and order within one submission
        for s in subs:
            if any(want[t] != 1 or t not in outcome for t in s.times):
                continue
            if any(outcome[t][0][1] is not None and outcome[t][0][1].outcome == "none" for t in s.times):
                tie = False
            else:
                tie = True
            prev = s.t0
            prev_s = s.s0
            for i, t in enumerate(s.times):
                e, c = outcome[t][0]
                if e.seq < s.s0:
                    w.fail("before", f"{sp}: outcome of {w.rel(t)} before its submission")
                if c is None or not tie:
                    continue
                if c.s0 < prev_s:
                    w.fail("run_order", f"{sp}: runs of submission {s} did not execute in order, one after the other")
                if sp.grace is not None:
                    at = c.t0 if calm else prev
                    if at - t > sp.grace * US:
                        w.fail("too_late", f"{sp}: run {w.rel(t)} called the function at {w.rel(at)}, later than its "
                                           f"grace time {sp.grace}")
                prev, prev_s = c.t1, c.s1
            if calm and sp.grace is not None and tie:
                # a run must be missed only if it was late when its turn came
                last = None
                for t in s.times:
                    e, c = outcome[t][0]
                    if c is not None:
                        last = c.t1
                nxt = None
                for t in reversed(s.times):
                    e, c = outcome[t][0]
                    if c is not None:
                        nxt = c.t0
                    elif nxt is not None and nxt - t <= sp.grace * US:
                        w.fail("missed_early", f"{sp}: run {w.rel(t)} was missed although the submission reached the "
                                               f"following run at {w.rel(nxt)}, within the grace time")
        for c in w.calls:
            if c.tag == tid and (list(c.args) != sp.args[1:] or c.kwargs != sp.kw):
                w.fail("args", f"{sp}: called with {c.args} {c.kwargs}, expected {sp.args[1:]} {sp.kw}")
    wound = {s.task_id for s in w.subs if s.n in cut}
    stray = [c.n for c in w.calls if c.n not in used and c.ended and c.tag not in wound]
    if stray:
        w.fail("stray_call", f"calls {[(n, bycall[n].tag) for n in stray]} belong to no reported run")
    openc = [c for c in w.calls if not c.ended and c.tag not in wound]
    if openc:
        w.fail("unfinished", f"calls never ended: {[(c.n, c.tag) for c in openc]}")
