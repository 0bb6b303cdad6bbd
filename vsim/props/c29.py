"""C29 asyncz start serves what is stored and configured from on_start to on_stop, then stops cleanly."""
import asyncio
import atexit
import json
import os
import shutil
import sys
import tempfile

from asyncz.cli.bootstrap_loader import clear_bootstrap_cache
from asyncz.tasks import Task
from asyncz.triggers import ShutdownTrigger

from ..kernel import BLOCKED, US, Proc
from ..refmodel import RDate, RInterval
from ..world import *  # noqa
from ..world import taskfns
from ..workload import *  # noqa
from .c28 import DBS, OUT, Cli, Stdout
from .c01 import REAL as _REAL, STUB as _STUB

ID = "C29"
RUNS_QUICK = 1500
RUNS_THOROUGH = 100000
WALL_QUICK = 150
LEVEL = "exploration"
REAL = _REAL[:1] + ["asyncz start, through the real argument parser, and its loaders of jobs"] + _REAL[1:]
STUB = _STUB + ["the process of the command (a thread with a process identity), its terminal and Ctrl+C"]

LAT = 900_000
JOBS = {}
STATE = {}


def registry_list():
    return JOBS["entries"]


def __getattr__(name):
    if name == "jobs_list":
        return JOBS["entries"]
    raise AttributeError(name)


def jobs_fn(scheduler):
    return JOBS["entries"]


def _hook(what):
    w, st = STATE["w"], STATE["hooks"]
    st.append([what, w.wall(), None])
    w.sim.note("hook", what)
    return st[-1]


def start_hook():
    h = _hook("start")
    if STATE["bad"] == "start":
        raise taskfns.JobError("on_start")
    h[2] = STATE["w"].wall()


async def start_ahook():
    h = _hook("start")
    await asyncio.sleep(0.3)
    if STATE["bad"] == "start":
        raise taskfns.JobError("on_start")
    h[2] = STATE["w"].wall()


def stop_hook():
    _hook("stop")[2] = STATE["w"].wall()
    if STATE["bad"] == "stop":
        raise taskfns.JobError("on_stop")


async def stop_ahook():
    h = _hook("stop")
    await asyncio.sleep(0.3)
    h[2] = STATE["w"].wall()
    if STATE["bad"] == "stop":
        raise taskfns.JobError("on_stop")


def config_path():
    if "dir" not in JOBS:
        JOBS["dir"] = tempfile.mkdtemp(prefix="vsim-c29-")
        JOBS["pid"] = os.getpid()
        atexit.register(shutil.rmtree, JOBS["dir"], True)
    elif JOBS["pid"] != os.getpid():
        del JOBS["dir"]
        return config_path()
    return os.path.join(JOBS["dir"], "jobs.json")


def write_config(jobs, mtime):
    p = config_path()
    with open(p + ".new", "w") as f:
        json.dump({"jobs": [{k: v for k, v in j.items() if k in ("name", "func", "interval", "cron", "at", "args", "kwargs")}
                            for j in jobs]}, f)
    os.utime(p + ".new", (mtime, mtime))
    os.replace(p + ".new", p)


class Job:
    """A configured job: exact (a reference trigger is known) or of an interval with unknown phase."""

    def __init__(self, tag, ref=None, step=None, kwargs=None):
        self.tag, self.ref, self.step, self.kwargs = tag, ref, step, kwargs or {}


def gen_config(sim, w, prefix, fns):
    out, jobs = [], []
    for k in range(sim.rint("w", 1, 3)):
        tag = f"{prefix}{k}"
        d = {"name": tag, "func": "vsim.taskfns:" + sim.pick("w", fns), "args": [tag]}
        if sim.chance("w", 70):
            step = sim.pick("w", [2, 3, 5])
            d["interval"] = f"{step}s"
            jobs.append(Job(tag, step=step * US))
        else:
            at = (w.wall() // US + sim.pick("w", [4, 7, 11])) * US
            d["at"] = from_us(at).isoformat()
            jobs.append(Job(tag, RDate(at)))
        if sim.chance("w", 30):
            d["kwargs"] = jobs[-1].kwargs = {"k": tag}
        out.append(d)
    return out, jobs


def gen_trig(sim, w):
    sec = w.wall() // US
    at = (sec + sim.pick("w", [3, 4, 6, 9])) * US + sim.pick("w", [0, 250_000])
    if sim.chance("w", 30):
        return DateTrigger(run_at=from_us(at), timezone="UTC"), RDate(at)
    step = sim.pick("w", [2, 3, 5])
    return IntervalTrigger(seconds=step, start_at=from_us(at), timezone="UTC"), RInterval(at, step * US)


def interrupt(sim, c):
    """Ctrl+C, while the command waits."""
    t = c.thread
    while not c.done:
        if t.state == BLOCKED and t.waiting_on == "loop":
            t.killed = KeyboardInterrupt
            sim.wake(t)
            sim.fault("sigint")
            sim.note("sigint")
            break
        sim.sleep(1000)
    return STATE["w"].wall()


def run(sim):
    w = World(sim, ID)
    w.default_plan = Plan((0, 150_000, 300_000), [(6, "ret"), (1, "exc"), (1, "none")])
    source = sim.wpick("w", [(2, "list"), (2, "fn"), (3, "config"), (3, "watch"), (2, "store"), (2, "boot")])
    dbs = ["durable"] if source in ("store", "boot") or sim.chance("w", 40) else []
    cli = Cli(sim, w, dbs)
    ek = sim.pick("w", [None, "thread", "asyncio"])
    hooks = []
    boot = source == "boot"
    fns = ["job"] if ek == "thread" and not boot else ["job", "ajob"]   # threads run no coroutine functions
    standalone = source == "watch" or sim.chance("w", 85)
    bad = sim.wpick("w", [(8, None), (1, "start"), (1, "stop")])
    if boot and bad == "start":
        bad = None
    STATE.update(w=w, hooks=hooks, bad=bad)
    args = [["--standalone"], []][not standalone]
    if source == "watch":
        every = sim.pick("w", [0.5, 1.0, 2.0])
        args = ["--watch", "--watch-interval", str(every)] + args * sim.rint("w", 0, 1)
    if ek and not boot:
        args += ["--executor", f"default={ek}"]
    if not boot:
        args += ["--on-start", "vsim.props.c29:" + sim.pick("w", ["start_hook", "start_ahook"])]
    args += ["--on-stop", "vsim.props.c29:" + sim.pick("w", ["stop_hook", "stop_ahook"])]
    exact, phases, downs = [], [], []
    entries = []
    if source in ("list", "fn"):
        for k in range(sim.rint("w", 1, 3)):
            trig, ref = gen_trig(sim, w)
            entries.append({"func": "vsim.taskfns:" + sim.pick("w", fns), "trigger": trig, "args": [f"m{k}"],
                            "name": f"m{k}"})
            exact.append(Job(f"m{k}", ref))
            if sim.chance("w", 30):
                entries[-1]["kwargs"] = exact[-1].kwargs = {"k": k}
        for fn in ("job", "ajob"):
            if sim.chance("w", 40):
                entries.append({"func": f"vsim.taskfns:{fn}", "trigger": "shutdown", "args": [f"mdown-{fn}"]})
                downs.append(f"mdown-{fn}")
        JOBS["entries"] = entries
        args += ["--module", "vsim.props.c29:" + ("jobs_fn" if source == "fn" else "jobs_list")]
    gens = []
    if source in ("config", "watch"):
        conf, jobs = gen_config(sim, w, "c0-", fns)
        write_config(conf, 1000)
        gens.append((jobs, None))
        if source == "config":
            exact += [j for j in jobs if j.ref]
            phases += [j for j in jobs if not j.ref]
    if dbs:
        sch = AsyncIOScheduler(timezone="UTC")
        st = w.make_store("sql", where=DBS[dbs[0]], tap=False)
        st.start(sch, dbs[0])
        for k in range(sim.rint("w", 0, 3)):
            trig, ref = gen_trig(sim, w)
            exact.append(Job(f"s{k}", ref))
            _store(sch, st, dbs[0], trig, f"s{k}", getattr(taskfns, sim.pick("w", fns)))
        for fn in (taskfns.job, taskfns.ajob):
            if sim.chance("w", 40):
                tag = f"down-{fn.__name__}"
                downs.append(tag)
                _store(sch, st, dbs[0], ShutdownTrigger(), tag, fn)
    style_for_run(sim, calm=30, stalls=False)
    sim.timer_late_p = 0
    stdout, sys.stdout = sys.stdout, Stdout(sys.stdout)
    try:
        note = sim.note
        if source in ("config", "watch"):
            args += ["--config", config_path()]
            sim.note = lambda *a: note(*[x for x in a if not isinstance(x, list)])
        try:
            c = cli.spawn("start", args, boot)
        finally:
            sim.__dict__.pop("note", None)
        t_sig = None
        if standalone or source == "watch":
            total = sim.pick("w", [6, 14, 25]) * US if sim.chance("w", 85) else sim.pick("w", [1, 1000, 200_000])
            if source == "watch" and total > 6 * US:
                for n in range(sim.rint("w", 1, 3)):
                    sim.sleep(sim.pick("w", [1, 200_000, 3 * US, 5 * US]))
                    conf, jobs = gen_config(sim, w, f"c{n + 1}-", fns)
                    write_config(conf, 2000 + n if sim.chance("w", 60) else 500 - n)   # also one put back
                    gens.append((jobs, w.wall()))
                total = 12 * US
            sim.sleep(total)
            t_sig = interrupt(sim, c)
        if not sim.join(c.thread, 60 * US):
            w.fail("stuck", "asyncz start does not return: " + sim.stacks())
        sim.sleep(12 * US)
    finally:
        sys.stdout = stdout
        OUT.clear()
        clear_bootstrap_cache()
    check(sim, w, c, source, boot, bad, hooks, exact, phases, downs, gens, t_sig, ek, dbs,
          int(every * US) if source == "watch" else 0)
    sim.crash(c.proc)
    calm_down(sim)
    w.close()
    return {"source": source, "stores": dbs, "executor": ek, "bad": bad, "calls": len(w.calls), "hooks": len(hooks),
            "contents": len(gens), "standalone": standalone}


def _store(sch, st, alias, trig, tag, fn):
    first = None if trig.alias == "shutdown" else trig.get_next_trigger_time(sch.timezone, None, trig_now(trig))
    t = Task(fn, id=tag, trigger=trig, args=[tag], kwargs={}, name=tag, executor="default", store_alias=alias,
             max_instances=5, coalesce=False, mistrigger_grace_time=None, scheduler=sch, next_run_time=first)
    st.add_task(t)


def trig_now(trig):
    return getattr(trig, "start_at", None) or trig.run_at


def check(sim, w, c, source, boot, bad, hooks, exact, phases, downs, gens, t_sig, ek, dbs, every):
    by = {}
    for x in w.calls:
        by.setdefault(x.tag, []).append(x)
        if x.t0 > c.t1:
            w.fail("after", f"{x.tag} ran at {w.rel(x.t0)}, asyncz start returned at {w.rel(c.t1)}")
    for j in exact + phases + [j for g in gens for j in g[0]]:
        for x in by.get(j.tag, []):
            if (tuple(x.args), dict(x.kwargs)) != ((), j.kwargs):
                w.fail("call", f"{j.tag} was called with {x.args} {x.kwargs}, configured are {j.kwargs}")
    # --- how it ended
    started = [h for h in hooks if h[0] == "start" and h[2] is not None]
    stops = [h for h in hooks if h[0] == "stop"]
    hook_error = isinstance(c.exc, taskfns.JobError)
    if c.exc is not None and not (hook_error and bad):
        w.fail("failed", f"asyncz start failed: {c.exc!r}")
    if bad == "stop" and stops and not hook_error:
        w.fail("hidden", "the error of on_stop is not reported")
    begun = len(stops) if boot else len(started)
    if len(stops) != begun or boot and len(stops) > 1:
        w.fail("hooks", f"on_start ended {len(started)} times, on_stop was called {len(stops)} times")
    if not boot:
        order = [h[0] for h in hooks if h[0] == "stop" or h[2] is not None]
        if order != ["start", "stop"] * len(started):
            w.fail("hooks", f"hooks were called in the order {order}")
        if not started and bad != "start" and t_sig is None:
            w.fail("hooks", "on_start was not called")
    # --- shutdown tasks run once, after on_stop, and finish
    began = bool(hooks) if not boot else True
    for tag in downs:
        xs = by.pop(tag, [])
        want = 1 if began else 0
        if t_sig is not None and not stops:
            want = len(xs)      # interrupted before anything was served
            if want > 1:
                want = 1
        if len(xs) != want:
            w.fail("shutdown_task", f"the shutdown task {tag} ran {len(xs)} times")
        for x in xs:
            # Ctrl+C while it stops already cuts that short
            cut = t_sig is not None and x.t0 <= t_sig
            if not cut and (not x.ended or x.t1 > c.t1 or x.t1 - x.t0 < x.duration):
                w.fail("shutdown_task", f"asyncz start returned before the shutdown task {tag} had finished")
            if stops and x.t0 < stops[0][1]:
                w.fail("shutdown_task", f"the shutdown task {tag} ran before on_stop")
    # --- runs in threads are awaited
    for xs in by.values():
        for x in xs:
            if ek == "thread" and not boot and (not x.ended or x.t1 > c.t1):
                w.fail("unfinished", f"asyncz start returned before the run of {x.tag} had ended")
    if bad == "start" or bad and source == "watch":
        return
    # --- what is served
    if t_sig is None or boot and not stops or not boot and not started:
        return
    t_on = c.t0 + 600_000
    known = set()
    for j in exact:
        if source == "watch" and not j.tag.startswith("s"):
            continue
        known.add(j.tag)
        xs = sorted(x.t0 for x in by.get(j.tag, []))
        ins = j.ref.instants(0, c.t1)
        left = list(ins)
        for t in xs:
            m = next((x for x in left if x <= t <= x + LAT + 700_000 * (source == "watch")), None)
            if m is None:
                w.fail("schedule", f"{j.tag} ran at {[w.rel(x) for x in xs]}, due at {[w.rel(x) for x in ins]}")
            left.remove(m)
        for m in left:
            # runs in the event loop are cancelled when the scheduler is shut down
            cut = (ek != "thread" or boot) and any(h[1] - LAT <= m <= (h[2] or h[1]) + LAT for h in stops)
            if m + LAT < t_sig and not cut:
                w.fail("missed", f"{j.tag} ran at {[w.rel(x) for x in xs]}, due until Ctrl+C at {w.rel(t_sig)} at "
                                 f"{[w.rel(x) for x in ins]}")
    for j in phases:
        known.add(j.tag)
        gaps(w, j, [x.t0 for x in by.get(j.tag, [])], c.t0, c.t0 + 600_000, t_sig)
    for n, (jobs, t_c) in enumerate(gens if source == "watch" else ()):
        known |= {j.tag for j in jobs}
        lo = c.t0 if t_c is None else t_c
        settle = lo + every + LAT + 600_000
        t_next = gens[n + 1][1] if n + 1 < len(gens) else None
        for j in jobs:
            xs = [x.t0 for x in by.get(j.tag, [])]
            if any(x < lo for x in xs):
                w.fail("reload", f"{j.tag} ran before it was configured")
            if t_next is not None:
                late = [x for x in xs if x > t_next + every + LAT + 600_000]
                if late:
                    w.fail("reload", f"{j.tag} ran at {w.rel(late[0])}, replaced at {w.rel(t_next)}")
                continue
            if j.step:
                gaps(w, j, xs, lo, settle, t_sig)
            elif len(xs) > (len(gens) if j.ref.at <= settle else 1) or not xs and settle < j.ref.at < t_sig - LAT:
                w.fail("reload", f"{j.tag}, due at {w.rel(j.ref.at)}, ran at {[w.rel(x) for x in xs]}")
    if set(by) - known:
        w.fail("unknown", f"{sorted(set(by) - known)} ran")


def gaps(w, j, xs, lo, settle, end):
    """Runs of an interval job which was loaded between lo and settle and served until end."""
    xs = sorted(xs)
    what = f"{j.tag}, every {j.step // US} s, loaded within [{w.rel(lo)}, {w.rel(settle)}], ran at " \
           f"{[w.rel(x) for x in xs]} until Ctrl+C at {w.rel(end)}"
    mine = [x for x in xs if x >= settle]
    for a, b in zip(mine, mine[1:]):
        if not j.step - LAT <= b - a <= j.step + LAT:
            w.fail("schedule", what)
    if xs and xs[0] < lo + j.step - 1000:
        w.fail("schedule", what)
    last = mine[-1] if mine else settle
    if end - last > j.step + LAT:
        w.fail("missed", what)
