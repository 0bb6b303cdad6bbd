"""C28 A CLI command acts once, on what it names, and runs nothing else."""
import datetime as dtm
import itertools
import json
import sys

from asyncz.cli.app import asyncz_cli
from asyncz.cli.bootstrap_loader import clear_bootstrap_cache

from ..kernel import US, Proc, SimKilled
from ..refmodel import RCron, RDate, RInterval
from ..seqspec import firsts
from ..world import *  # noqa
from ..world import kernel, taskfns
from ..workload import *  # noqa
from .c01 import REAL as _REAL, STUB as _STUB

ID = "C28"
RUNS_QUICK = 2500
RUNS_THOROUGH = 150000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = _REAL[:1] + ["asyncz command line: every command except start and version, through the real argument parser"] + \
    _REAL[1:]
STUB = _STUB + ["processes of the commands (threads with a process identity), the terminal"]

READ = ["list", "inspect", "preview", "timeline", "status", "doctor", "instances"]
BOOTS = itertools.count()
OUT = {}


class Stdout:
    """What the commands print, by process."""

    def __init__(self, real):
        self.real = real

    def write(self, text):
        sim = kernel.CURRENT
        buf = OUT.get(sim.cur.name) if sim is not None else None
        if buf is None:
            return self.real.write(text)
        buf.append(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def __getattr__(self, n):
        return getattr(self.real, n)


def _quiet(*a, **k):
    """Messages for people."""


GROUP = asyncz_cli._group
for _n, _m in list(sys.modules.items()):
    if _n.startswith("asyncz.cli."):
        for _x in ("info", "success", "warning", "error"):
            if getattr(getattr(_m, _x, None), "__module__", "").startswith("sayer"):
                setattr(_m, _x, _quiet)


DBS = {"durable": "a", "sql": "b"}


def boot_factory():
    """What an application names with --bootstrap."""
    w = taskfns.WORLD
    return AsyncIOScheduler(stores={a: SQLAlchemyStore(database=w.sql(DBS[a]).engine()) for a in w.cli_dbs},
                            timezone="UTC")


def __getattr__(name):
    # every process has modules (and so a cache of schedulers) of its own
    if name.startswith("boot_"):
        return boot_factory
    raise AttributeError(name)


class T:
    """What the model knows about a stored task."""

    def __init__(self, tid, alias, ref, nxt, **kw):
        self.id, self.alias, self.ref, self.nxt = tid, alias, ref, nxt
        self.name = "job"
        self.args = [tid]
        self.kwargs = {}
        self.max_instances = 50
        self.grace = None
        self.coalesce = False
        self.__dict__.update(kw)


class Cmd:
    pass


def iso(us):
    return from_us(us).isoformat()


def us_of(x):
    return None if x in (None, "None") else to_us(dtm.datetime.fromisoformat(x))


class Cli:
    def __init__(self, sim, w, dbs):
        self.sim, self.w = sim, w
        self.dbs = dbs
        w.cli_dbs = dbs
        self.n = 0
        self.cmds = []

    def raw(self):
        """{(alias, id): row} of everything that is stored."""
        out = {}
        for a in self.dbs:
            for row in self.w.sql(DBS[a]).all_rows():
                out[a, row[0]] = tuple(row)
        return out

    def tasks(self):
        out = {}
        sch = AsyncIOScheduler(timezone="UTC")
        for a in self.dbs:
            st = self.w.make_store("sql", where=DBS[a], tap=False)
            st.start(sch, a)
            for t in st.get_all_tasks():
                out[a, t.id] = t
        return out

    def spawn(self, name, args, boot=False):
        """Starts the command in a process of its own."""
        sim, w = self.sim, self.w
        c = Cmd()
        self.n += 1
        c.n, c.name, c.args, c.boot = self.n, name, args, boot
        c.proc = Proc(f"cli{self.n}")
        c.exc, c.out = None, ''
        c.done = False
        argv = list(args)
        if boot:
            argv += ["--bootstrap", f"vsim.props.c28:boot_{next(BOOTS)}"]
        else:
            for a in self.dbs:
                argv += ["--store", f"{a}=sim://{DBS[a]}"]

        def go():
            me = sim.cur.name
            OUT[me] = []
            c.t0, c.s0 = w.wall(), w.seq()
            try:
                GROUP.commands[name].main(args=argv, standalone_mode=False)
            except SimKilled:
                raise
            except BaseException as e:  # noqa
                c.exc = e
            c.t1, c.s1 = w.wall(), w.seq()
            c.out = "".join(OUT.pop(me, []))
            c.done = True
            sim.note("cli-end", c.n, type(c.exc).__name__)
        sim.note("cli", c.n, name, args, "boot" if boot else "")
        c.t0 = w.wall()
        c.thread = sim.spawn(go, name=f"cli{self.n}", proc=c.proc)
        self.cmds.append(c)
        return c

    def wait(self, c):
        if not self.sim.join(c.thread, 120 * US + 20 * self.sim.stall_max_us):
            self.w.fail("stuck", f"asyncz {c.name} {c.args} does not return: " + self.sim.stacks())
        if c.done:
            # the process is gone
            self.sim.crash(c.proc)
        return c

    def json(self, c):
        for line in (*c.out.splitlines(), c.out):
            if line.lstrip()[:1] in ("[", "{"):
                try:
                    return json.loads(line)
                except ValueError:
                    pass
        self.w.fail("no_output", f"asyncz {c.name} {c.args} printed no JSON: {c.out}")


def check_read(cli, c, model, now_lo, now_hi):
    """The report of a read-only command against what is stored."""
    w = cli.w
    who = f"asyncz {c.name} {c.args}"
    if c.name in ("inspect", "preview"):
        t = next((t for t in model.values() if t.id == c.args[0]), None)
        if t is None:
            if c.exc is None:
                w.fail("unknown", f"{who} reports on a task which does not exist")
            return
        if c.exc is not None:
            w.fail("refused", f"{who} failed: {c.exc!r}")
        o = cli.json(c)
        runs = [us_of(x) for x in o["run_times"]]
        state = "paused" if t.nxt is None else "scheduled"
        if o["task"]["id"] != t.id or o["task"]["state"] != state or o["task"]["store"] != t.alias:
            w.fail("report", f"{who} reports {o['task']}, stored is {t.__dict__}")
        if c.name == "inspect" and us_of(o["task"]["next_run_time"]) != t.nxt:
            w.fail("report", f"{who} reports {o['task']['next_run_time']}, stored is {w.rel(t.nxt)}")
        if t.nxt is not None and t.nxt > now_hi:
            want = chain_n(t.ref, t.nxt, o["requested_count"])
            if runs != want:
                w.fail("preview", f"{who} previews {[w.rel(x) for x in runs]}, expected {[w.rel(x) for x in want]}")
        return
    if c.exc is not None:
        w.fail("refused", f"{who} failed: {c.exc!r}")
    o = cli.json(c)
    if c.name == "list":
        want = dict(model)
        if "--state" in c.args:
            st = c.args[c.args.index("--state") + 1]
            want = {k: t for k, t in want.items() if (t.nxt is None) == (st == "paused") and st != "pending"}
        got = {(x["store"], x["id"]): x for x in o}
        if set(got) != set(want) or len(got) != len(o):
            w.fail("report", f"{who} lists {sorted(got)}, stored are {sorted(want)}")
        for k, x in got.items():
            if us_of(str(x["next_run_time"])) != want[k].nxt or x["name"] != want[k].name:
                w.fail("report", f"{who} lists {x}, stored is {want[k].__dict__}")
    elif c.name == "timeline":
        ts = [us_of(r["run_time"]) for r in o["runs"]] if "runs" in o else []
        if o["task_count"] != len(model):
            w.fail("report", f"{who} counts {o['task_count']} tasks, stored are {len(model)}")
        if ts != sorted(ts):
            w.fail("report", f"{who} is not in order")
    elif c.name == "status" and not c.boot:
        paused = sum(t.nxt is None for t in model.values())
        if (o["task_count"], o["paused_task_count"]) != (len(model), paused):
            w.fail("report", f"{who} reports {o}, stored are {len(model)} tasks, {paused} paused")


def chain_n(ref, start, n):
    out = [start]
    while len(out) < n:
        x = ref.after(out[-1])
        if x is None:
            break
        out.append(x)
    return out


def gen_read(sim, ids):
    name = sim.pick("w", READ)
    if name in ("inspect", "preview"):
        return name, [sim.pick("w", ids + ["nobody"]), "--json", "--count", str(sim.pick("w", [1, 5, 50]))]
    args = ["--json"]
    if name == "list" and sim.chance("w", 50):
        args += ["--state", sim.pick("w", ["paused", "scheduled"])]
    if name == "list" and sim.chance("w", 30):
        args += ["--sort-by", sim.pick("w", ["name", "id", "trigger"])]
    return name, args


def gen_change(sim, w, ids, fresh, far=False, dup=None):
    """(command, args, id)"""
    name = sim.pick("w", ["add", "pause", "resume", "remove", "update", "run", "run"])
    if name == "add":
        dup = ids if dup is None else dup      # ids of the store which is added to
        tid = sim.pick("w", dup) if dup and sim.chance("w", 15) else fresh
        kind = sim.pick("w", ["at", "interval", "cron"])
        fn = sim.pick("w", ["job", "ajob"])
        args = [f"vsim.taskfns:{fn}", "--id", tid, "--args", json.dumps([tid, 7]), "--kwargs", json.dumps({"k": tid}),
                "--name", f"n {tid}"]
        if kind == "at":
            at = w.wall() // US * US + sim.pick("w", [3600, 7200] if far else [2, 30, 3600, -3]) * US
            args += ["--at", iso(at)]
        elif kind == "interval":
            args += ["--interval", "2h" if far else sim.pick("w", ["3s", "1m", "2h"])]
        else:
            args += ["--cron", "0 0 * * *" if far else sim.pick("w", ["* * * * *", "*/5 * * * *", "0 0 * * *"])]
        return name, args, tid
    tid = sim.pick("w", ids + ([] if far else ["nobody"]))
    args = [tid]
    if name == "update":
        what = sim.pick("w", ["name", "args", "kwargs", "max", "grace", "cleargrace", "coalesce", "two"])
        if what in ("name", "two"):
            args += ["--name", f"new {sim.fresh()}"]
        if what == "args":
            args += ["--args", json.dumps([tid, sim.fresh()])]
        if what in ("kwargs", "two"):
            args += ["--kwargs", json.dumps({"z": sim.fresh()})]
        if what == "max":
            args += ["--max-instances", str(sim.pick("w", [3, 60]))]
        if what == "grace":
            args += ["--mistrigger-grace-time", str(sim.pick("w", [30, 2.5, 900]))]
        if what == "cleargrace":
            args += ["--clear-mistrigger-grace-time"]
        if what == "coalesce":
            args += ["--coalesce", sim.pick("w", ["true", "no"])]
        args += [sim.wpick("w", [(7, "--yes"), (3, "--dry-run")])]
        if sim.chance("w", 50):
            args += ["--json"]
    return name, args, tid


def opt(args, name):
    return args[args.index(name) + 1] if name in args else None


def fields(t):
    return {"name": t.name, "args": list(t.args), "kwargs": dict(t.kwargs), "max_instances": t.max_instances,
            "mistrigger_grace_time": t.mistrigger_grace_time, "coalesce": t.coalesce}


def want_fields(before, args):
    f = dict(before)
    if opt(args, "--name"):
        f["name"] = opt(args, "--name")
    for o, n in (("--args", "args"), ("--kwargs", "kwargs")):
        if opt(args, o):
            f[n] = json.loads(opt(args, o))
    if opt(args, "--max-instances"):
        f["max_instances"] = int(opt(args, "--max-instances"))
    if opt(args, "--mistrigger-grace-time"):
        f["mistrigger_grace_time"] = float(opt(args, "--mistrigger-grace-time"))
    if "--clear-mistrigger-grace-time" in args:
        f["mistrigger_grace_time"] = None
    if opt(args, "--coalesce"):
        f["coalesce"] = opt(args, "--coalesce") in ("true", "yes")
    return f


def nxt_of(t):
    return to_us(t.next_run_time) if t.next_run_time else None


def check_change(cli, c, tid, before, after, refs, weak, quiet=True):
    """A changing command against the stored task it names (before / after it, None when absent).

    weak: a fault struck it, so it may have had no effect. Returns whether it took effect."""
    w = cli.w
    who = f"asyncz {c.name} {c.args}" + (" --bootstrap" if c.boot else "")
    calls = [x for x in w.calls if x.proc is c.proc]
    if c.name != "run" and calls:
        w.fail("ran", f"{who} executed {[x.tag for x in calls]}")
    if any(x.tag != tid for x in calls):
        w.fail("ran", f"{who} executed {[x.tag for x in calls]}")

    def same(a, b):
        return (a is None) == (b is None) and (a is None or (fields(a), nxt_of(a)) == (fields(b), nxt_of(b)))
    unchanged = same(before, after)
    failed = c.exc is not None or not c.done
    if c.name == "add":
        if before is not None:
            if not failed:
                w.fail("duplicate", f"{who} did not refuse the id of a stored task")
            if not unchanged:
                w.fail("duplicate", f"{who} changed the stored task")
            return
        if failed and not weak:
            w.fail("refused", f"{who} failed: {c.exc!r}")
        if after is None:
            if not failed:
                w.fail("no_effect", f"{who} reported success but nothing is stored")
            return
        f = fields(after)
        if (f["name"], f["args"], f["kwargs"]) != (f"n {tid}", [tid, 7], {"k": tid}) or \
                after.fn_reference != opt(c.args, f"--id") and after.fn_reference != c.args[0]:
            w.fail("effect", f"{who} stored {f} {after.fn_reference}")
        n = nxt_of(after)
        if opt(c.args, "--at"):
            at = us_of(opt(c.args, "--at"))
            refs[tid] = RDate(at)
            ok = n == at
        elif opt(c.args, "--interval"):
            step = {"3s": 3, "1m": 60, "2h": 7200}[opt(c.args, "--interval")] * US
            ok = n is not None and c.t0 + step <= n <= (c.t1 if c.done else w.wall()) + step
            refs[tid] = RInterval(n, step)
        else:
            cr = opt(c.args, "--cron")
            ref = RCron([0], minutes=None if cr.startswith("* ") else range(0, 60, 5) if cr[0] == "*" else [0],
                        hours=[0] if cr.startswith("0") else None)
            refs[tid] = ref
            ok = n in firsts(ref, c.t0, c.t1 if c.done else w.wall())
        if not ok and quiet:
            w.fail("effect", f"{who} stored next run time {w.rel(n)}, called within [{w.rel(c.t0)}, {w.rel(c.t1)}]")
        return
    if before is None:
        if not failed:
            w.fail("unknown", f"{who} succeeded although there is no such task")
        if after is not None:
            w.fail("unknown", f"{who} created a task")
        return
    if failed and not weak:
        w.fail("refused", f"{who} failed: {c.exc!r}")
    if c.name == "run":
        n, co = nxt_of(before), before.coalesce
        due = 1
        if n is not None and n <= c.t0:
            due = len(refs[tid].instants(n, c.t0)) or 1
            if co:
                due = 1
        g = before.mistrigger_grace_time
        lo = hi = due
        if n is not None and n <= (c.t1 if c.done else w.wall()):
            hi = len(chain(refs[tid], n, c.t1 if c.done else w.wall())) if not co else 1
            lo = 1
        if g is not None or weak:
            lo = 0
        if not lo <= len(calls) <= hi:
            w.fail("runs", f"{who} executed the function {len(calls)} times, expected {lo}..{hi}")
        for x in calls:
            if list((x.tag,) + tuple(x.args)) != list(before.args) or x.kwargs != dict(before.kwargs):
                w.fail("call", f"{who} called the function with {x.args} {x.kwargs}, stored are {before.args} "
                               f"{before.kwargs}")
            if not weak and (not x.ended or x.t1 - x.t0 < x.duration):
                w.fail("unfinished", f"{who} ended before the run it triggered: {x.tag} began at {w.rel(x.t0)}, takes "
                                     f"{x.duration} us, ended {x.ended}")
        if not failed and after is not None:
            m = nxt_of(after)
            if m is not None and m <= c.t0 or fields(after) != fields(before):
                w.fail("effect", f"{who}: next run time {w.rel(m)} after a run at {w.rel(c.t0)}")
        return
    if c.name == "update":
        want = want_fields(fields(before), c.args)
        if "--dry-run" in c.args:
            if not unchanged:
                w.fail("dry_run", f"{who} changed the task from {fields(before)} to {after and fields(after)}")
            if not failed and "--json" in c.args:
                o = cli.json(c)
                diff = {k: {"before": fields(before)[k], "after": want[k]} for k in want
                        if want[k] != fields(before)[k]}
                if o["applied"] or o["diff"] != diff:
                    w.fail("dry_run", f"{who} reports {o}, expected the difference {diff}")
            return
        if after is None or nxt_of(after) != nxt_of(before):
            w.fail("effect", f"{who} changed the place in the schedule")
        if fields(after) != want and not (weak and unchanged):
            w.fail("effect", f"{who} stored {fields(after)}, expected {want}")
        return
    if c.name == "remove":
        ok = after is None
    elif c.name == "pause":
        ok = after is not None and nxt_of(after) is None and fields(after) == fields(before)
    else:
        cands = firsts(refs[tid], c.t0, c.t1 if c.done else w.wall())
        ok = (after is None and None in cands) or (after is not None and nxt_of(after) in cands)
    if not ok and not (weak and failed and unchanged):
        w.fail("effect", f"{who} left {after and (fields(after), w.rel(nxt_of(after)))}")


def others_unchanged(cli, c, tid, r0, r1):
    w = cli.w
    for k in set(r0) | set(r1):
        if k[1] != tid and r0.get(k) != r1.get(k):
            w.fail("collateral", f"asyncz {c.name} {c.args}" + (" --bootstrap" if c.boot else "") +
                   f" changed the stored task {k}: {'gone' if k not in r1 else 'new' if k not in r0 else 'different'}")


def setup(sim, w, sched, dbs, n, refs, far=False):
    ids = []
    for k in range(n):
        tid = f"t{k}"
        alias = sim.pick("w", dbs)
        if far:
            paused = sim.chance("w", 50)
            at = w.wall() // US * US + 3600 * US
            if sim.chance("w", 50):
                trig, ref = DateTrigger(run_at=from_us(at), timezone="UTC"), RDate(at)
            else:
                trig, ref = IntervalTrigger(seconds=7200, start_at=from_us(at), timezone="UTC"), RInterval(at, 7200 * US)
        else:
            trig, ref, _ = gen_trigger(sim, w.wall())
            paused = sim.chance("w", 25)
        refs[tid] = ref
        kw = {"next_run_time": None} if paused else {}
        sched.add_task(taskfns.ajob if sim.chance("w", 50) else taskfns.job, trig, args=[tid], id=tid, store=alias,
                       max_instances=50, mistrigger_grace_time=sim.pick("w", [None, None, 5]),
                       coalesce=bool(sim.pick("w", [0, 1])), **kw)
        ids.append(tid)
    return ids


def run(sim):
    w = World(sim, ID)
    dbs = ["durable", "sql"][:sim.pick("w", [1, 1, 2])]
    cli = Cli(sim, w, dbs)
    w.default_plan = Plan((0, 200_000, 2 * US), [(6, "ret"), (1, "exc"), (1, "none")])
    refs = {}
    live = sim.chance("w", 45)
    ek = sim.pick("w", ["asyncio", "thread"])
    P0 = Proc("svc")
    box = []

    def go():
        h = Host(w, "thread", name="svc", proc=P0,
                 stores={a: w.make_store("sql", where=DBS[a]) for a in dbs},
                 executors={"default": w.make_executor(ek)}, store_retry_interval=3)
        h.start(paused=not live)
        box.append(h)
    style_for_run(sim, calm=30, stalls=not live)
    if not sim.join(sim.spawn(go, name="svc", proc=P0), 60 * US) or not box:
        w.fail("stuck", "start does not return: " + sim.stacks())
    h = box[0]
    down = "z0" if sim.chance("w", 50) else None
    if down:
        h.sched.add_task(taskfns.job, "shutdown", args=[down], id=down, store=dbs[0], name="job")
    stdout, sys.stdout = sys.stdout, Stdout(sys.stdout)
    try:
        out = served(sim, w, cli, h, refs, down) if live else unserved(sim, w, cli, h, refs, down)
    finally:
        sys.stdout = stdout
        OUT.clear()
        clear_bootstrap_cache()
    calm_down(sim)
    w.close()
    sim.probe("commands", cli.n)
    return {"live": live, "stores": dbs, "executor": ek, "commands": [c.name for c in cli.cmds], "shutdown_task": down,
            **out}


def unserved(sim, w, cli, h, refs, down):
    """No scheduler serves the stores: every command is compared with the stored state before and after it."""
    setup(sim, w, h.sched, cli.dbs, sim.rint("w", 1, 4), refs)
    sim.crash(h.proc)
    faulty = sim.chance("w", 30)
    p = sim.pick("f", [5, 15])
    struck = [0]

    def plan(stmt):
        if sim.chance("f", p):
            struck[0] += 1
            return sim.pick("f", ["before", "after"])
    crashes = 0
    for _ in range(sim.rint("w", 2, 6)):
        sim.sleep(sim.pick("w", [0, 1000, 2 * US, 9 * US]) + 1)
        b, r0 = cli.tasks(), cli.raw()
        ids = sorted(k[1] for k in b if k[1] != down)
        c0 = len(w.calls)
        struck[0] = 0
        if faulty:
            for d in cli.dbs:
                w.sql(DBS[d]).fault_plan = plan
        boot = sim.chance("w", 20)
        tid = None
        if sim.chance("w", 45) or not ids:
            name, args = gen_read(sim, ids)
        else:
            name, args, tid = gen_change(sim, w, ids, f"n{sim.fresh()}",
                                         dup=sorted(k[1] for k in b if k[0] == cli.dbs[0] and k[1] != down))
            if tid == down:
                tid = None
        t0 = w.wall()
        c = cli.spawn(name, args, boot)
        crashed = sim.chance("f", 10)
        if crashed:
            sim.sleep(sim.pick("f", [0, 1, 100, 100_000]) + 1)
            if not c.done:
                sim.crash(c.proc)
                crashes += 1
            else:
                crashed = False
        cli.wait(c)
        for d in cli.dbs:
            w.sql(DBS[d]).fault_plan = None
        weak = bool(struck[0]) or crashed
        a, r1 = cli.tasks(), cli.raw()
        others_unchanged(cli, c, tid, r0, r1)
        if name in READ:
            if len(w.calls) != c0:
                w.fail("ran", f"asyncz {name} {args} executed {[x.tag for x in w.calls[c0:]]}")
            if not weak:
                check_read(cli, c, {k: T(k[1], k[0], refs.get(k[1]), nxt_of(t), name=t.name) for k, t in b.items()},
                           t0, w.wall())
        else:
            def find(m):
                return next((t for k, t in m.items() if k[1] == tid), None)
            check_change(cli, c, tid, find(b), find(a), refs, weak)
    if any(x.tag == down for x in w.calls):
        w.fail("ran", "a command executed the shutdown task of the store")
    return {"faulty": faulty, "crashes": crashes}


def served(sim, w, cli, h, refs, down):
    """A scheduler serves the stores meanwhile; the commands come from several processes at a time."""
    h.sched.add_task(taskfns.plain, "interval", seconds=1, id="hb", store=cli.dbs[0], mistrigger_grace_time=None,
                     max_instances=1000)
    specs = []
    for k in range(sim.rint("w", 1, 3)):
        sp = gen_spec(sim, f"s{k}", w.wall(), {"default": "thread"}, cli.dbs, explicit=False)
        sp.add(h.sched, w.wall)
        specs.append(sp)
    own = setup(sim, w, h.sched, cli.dbs, sim.rint("w", 2, 5), refs, far=True)
    nclients = sim.pick("w", [1, 2, 3])
    new = {}
    t_start = w.wall()

    def client(k):
        mine = [t for j, t in enumerate(own) if j % nclients == k]
        for n in range(sim.rint("w", 1, 5)):
            sim.sleep(sim.pick("w", [0, 1000, 300_000, US]) + 1)
            boot = sim.chance("w", 20)
            what = sim.wpick("w", [(45, "read"), (40, "change"), (15, "soon")])
            if what == "soon":
                tid = f"n{k}.{n}"
                at = w.wall() + sim.pick("w", [5, 7]) * US
                c = cli.wait(cli.spawn("add", [f"vsim.taskfns:{sim.pick('w', ['job', 'job'])}", "--id", tid, "--args",
                                               json.dumps([tid]), "--at", iso(at)], boot))
                if c.exc is not None:
                    w.fail("refused", f"asyncz add {tid} failed: {c.exc!r}")
                new[tid] = (c, at)
                continue
            if what == "read" or not mine:
                name, args = gen_read(sim, mine or ["hb"])
                there = name not in ("inspect", "preview") or any(k[1] == args[0] for k in cli.raw())
                c = cli.wait(cli.spawn(name, args, boot))
                if (c.exc is None) != there:
                    w.fail("refused", f"asyncz {name} {args} failed: {c.exc!r}")
                continue
            name, args, tid = gen_change(sim, w, mine, f"f{k}.{n}", far=True,
                                         dup=[x for x in mine if (cli.dbs[0], x) in cli.raw()])
            if name == "run" and sim.chance("w", 50):
                name, args = "pause", [tid]

            def find():
                return next((t for kk, t in cli.tasks().items() if kk[1] == tid), None)
            before = find()
            c = cli.wait(cli.spawn(name, args, boot))
            check_change(cli, c, tid, before, find(), refs, False)
            if name == "add" and tid not in mine:
                mine.append(tid)
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(nclients)]
    for t in ths:
        if not sim.join(t, 900 * US):
            w.fail("stuck", "a client does not end: " + sim.stacks())
    sim.sleep(8 * US)
    t_end = quiesce(w, h)
    for sp in specs:
        check_schedule(w, sp, t_end, stored_next(h.sched, sp))
    svc = {c.proc for c in cli.cmds}
    for x in w.calls:
        if x.proc in svc and not any(c.proc is x.proc and c.name == "run" and c.args[0] == x.tag for c in cli.cmds):
            w.fail("ran", f"a command executed {x.tag}")
        if x.tag in own and x.proc not in svc:
            w.fail("ran", f"{x.tag} ran in the service although it is not due")
    if down and any(x.tag == down for x in w.calls):
        w.fail("ran", "the shutdown task of the store ran although nothing was shut down")
    for tid, (c, at) in new.items():
        cs = [x for x in w.calls if x.tag == tid]
        missed = [e for e in w.events if e.task_id == tid and e.code == EV.TASK_MISSED]
        if len(cs) + len(missed) != 1:
            w.fail("added", f"{tid}, added by a command for {w.rel(at)} at {w.rel(c.t1)}, ran {len(cs)} times, missed "
                            f"{len(missed)} times")
    t = sim.spawn(lambda: h.shutdown(wait=True, settle=False), name="down", proc=h.proc)
    if not sim.join(t, 60 * US):
        w.fail("stuck", "shutdown does not return: " + sim.stacks())
    sim.sleep(3 * US)
    if down and len([x for x in w.calls if x.tag == down]) != 1:
        w.fail("shutdown_task", f"the shutdown task ran {len([x for x in w.calls if x.tag == down])} times when the "
                                f"service was shut down")
    return {"clients": nclients, "served_tasks": len(specs), "added": len(new), "t": (t_end - t_start) // US}
