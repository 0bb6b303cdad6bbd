"""C16 Event, audit and log stores keep the newest records, complete and in order."""
import logging

from asyncz.contrib.dashboard import audit as A, events as E, history as H
from asyncz.contrib.dashboard.logs import handler as LH
from asyncz.contrib.dashboard.logs.storage import LogEntry, MemoryLogStorage

from ..kernel import US, SimKilled, Violation
from ..lin import linearize
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import STUB

ID = "C16"
RUNS_QUICK = 8000
RUNS_THOROUGH = 400000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["asyncz.contrib.dashboard events, audit, history and logs (storages, listeners, handler)",
        "python logging", "schedulers, executors, stores, triggers, tasks, events"]

NAMES = {EV.SCHEDULER_STARTED: "scheduler.started", EV.SCHEDULER_SHUTDOWN: "scheduler.shutdown",
         EV.SCHEDULER_PAUSED: "scheduler.paused", EV.SCHEDULER_RESUMED: "scheduler.resumed",
         EV.EXECUTOR_ADDED: "executor.added", EV.EXECUTOR_REMOVED: "executor.removed", EV.STORE_ADDED: "store.added",
         EV.STORE_REMOVED: "store.removed", EV.ALL_TASKS_REMOVED: "task.all_removed", EV.TASK_ADDED: "task.added",
         EV.TASK_REMOVED: "task.removed", EV.TASK_MODIFIED: "task.modified", EV.TASK_EXECUTED: "task.executed",
         EV.TASK_ERROR: "task.error", EV.TASK_MISSED: "task.missed", EV.TASK_SUBMITTED: "task.submitted",
         EV.TASK_MAX_INSTANCES: "task.max_instances"}
TERMINAL_CODES = {EV.TASK_EXECUTED, EV.TASK_ERROR, EV.TASK_MISSED, EV.TASK_MAX_INSTANCES, EV.SCHEDULER_SHUTDOWN}


class SOp:
    """One call of a storage."""
    __slots__ = ("kind", "a", "res", "s0", "s1", "t0", "t1", "thread")

    def __repr__(self):
        return f"{self.thread}:{self.kind}{self.a}->{self.res}[{self.s0},{self.s1}]"


class Log:
    def __init__(self, w):
        self.w = w
        self.ops = []

    def call(self, kind, a, fn):
        w = self.w
        o = SOp()
        o.kind, o.a, o.thread, o.res = kind, a, w.sim.cur.name, None
        self.ops.append(o)
        o.t0, o.s0, o.s1 = w.wall(), w.seq(), None
        try:
            o.res = fn()
        except (SimKilled, Violation):
            raise
        except Exception as e:
            w.fail("raised", f"{kind} {a} raised {type(e).__name__}: {e}")
        finally:
            o.t1, o.s1 = w.wall(), w.seq()
        return o


class DummyScheduler:
    identity = "node"


# ------------------------------------------------------------------ one storage, many threads
class EventsSubject:
    name = "events"

    def __init__(self, w, maxlen):
        self.w = w
        self.st = E.MemorySchedulerEventStorage(maxlen=maxlen)
        self.want = {}      # key -> expected fields

    def append(self, key):
        sim = self.w.sim
        tid = f"k{key}"
        k = sim.pick("w", ["submitted", "executed", "task", "scheduler", "store"])
        f = dict(alias=None, task_id=None, store=None, scheduler_identity="node", details={})
        t = from_us(self.w.wall())
        if k == "submitted":
            code = sim.pick("w", [EV.TASK_SUBMITTED, EV.TASK_MAX_INSTANCES])
            n = sim.pick("w", [1, 2])
            ev = TaskSubmissionEvent(code=code, task_id=tid, store="default", scheduled_run_times=[t] * n, source="manual",
                                     scheduler_identity="node")
            f.update(task_id=tid, store="default")
            f["details"] = {"source": "manual", "submitted_run_count": n, "coalesced_run_count": 0,
                            "scheduled_run_times": [t.isoformat()] * n}
        elif k == "executed":
            code = sim.pick("w", [EV.TASK_EXECUTED, EV.TASK_ERROR, EV.TASK_MISSED])
            err = ValueError(f"wrong{key}") if code == EV.TASK_ERROR else None
            ev = TaskExecutionEvent(code=code, task_id=tid, store="x", scheduled_run_time=t, scheduler_identity="node",
                                    return_value=f"v{key}" if err is None else None, exception=err)
            f.update(task_id=tid, store="x")
            f["details"] = {"scheduled_run_time": t.isoformat(), "return_value": repr(f"v{key}") if err is None else None,
                            "exception_type": "ValueError" if err else None,
                            "exception_message": f"wrong{key}" if err else None}
        elif k == "task":
            code = sim.pick("w", [EV.TASK_ADDED, EV.TASK_REMOVED, EV.TASK_MODIFIED])
            ev = TaskEvent(code=code, task_id=tid, store="default", scheduler_identity="node", alias=f"k{key}")
            f.update(task_id=tid, store="default", alias=f"k{key}")
        else:
            code = sim.pick("w", [EV.SCHEDULER_PAUSED, EV.SCHEDULER_SHUTDOWN] if k == "scheduler" else
                            [EV.STORE_ADDED, EV.EXECUTOR_REMOVED])
            ev = SchedulerEvent(code=code, alias=f"k{key}")
            f.update(alias=f"k{key}")
        f.update(code=code, name=NAMES[code], category=NAMES[code].split(".")[0])
        self.want[key] = f
        return lambda: self.st.append(ev, scheduler=DummyScheduler)

    def key(self, r):
        return int((r.task_id or r.alias)[1:])

    def stamp(self, r):
        return r.observed_at

    def gen_filter(self):
        sim = self.w.sim
        f = {}
        k = sim.pick("w", ["none", "category", "name", "task", "q", "both"])
        if k in ("category", "both"):
            f["category"] = sim.pick("w", ["task", "scheduler", " Store ", "executor", "nothing"])
        if k in ("name", "both"):
            f["name"] = sim.pick("w", ["task.submitted", "TASK.ERROR", "task.added"])
        if k == "task":
            f["task_id"] = f"k{sim.draw('w', 8)}"
        if k == "q":
            f["q"] = sim.pick("w", ["k1", "MANUAL", "paused", "wrong", "valueerror", "zzz"])
        return f

    def match(self, key, f):
        r = self.want[key]
        if f.get("category") and r["category"] != f["category"].strip().lower():
            return False
        if f.get("name") and r["name"] != f["name"].lower():
            return False
        if f.get("task_id") and r["task_id"] != f["task_id"]:
            return False
        if f.get("q"):
            text = [r["name"], r["category"], r["alias"] or "", r["task_id"] or "", r["store"] or "", "node"]
            for a, b in r["details"].items():
                if b is not None:
                    text += [a, str(b)]
            return any(f["q"].lower() in x.lower() for x in text)
        return True

    def summary(self, keys):
        rs = [self.want[k] for k in keys]
        return {"total": len(rs), "scheduler": sum(r["category"] == "scheduler" for r in rs),
                "task": sum(r["category"] == "task" for r in rs),
                "terminal": sum(r["code"] in TERMINAL_CODES for r in rs)}


class AuditSubject:
    name = "audit"

    def __init__(self, w, maxlen):
        self.w = w
        self.st = A.MemoryAuditTrailStorage(maxlen=maxlen)
        self.want = {}

    def append(self, key):
        sim = self.w.sim
        f = dict(action=sim.pick("w", ["task.run", "task.pause", "logs.export"]),
                 status=sim.pick("w", ["succeeded", "failed", "warning"]), target_type=sim.pick("w", ["task", "tasks"]),
                 target_id=f"k{key}", message=sim.pick("w", [None, "Done", f"m{key}"]),
                 actor=sim.pick("w", ["dashboard", "ann"]), details=sim.pick("w", [{}, {"n": key}]))
        self.want[key] = f
        return lambda: self.st.append(**f)

    def key(self, r):
        return int(r.target_id[1:])

    def stamp(self, r):
        return r.created_at

    def gen_filter(self):
        sim = self.w.sim
        f = {}
        k = sim.pick("w", ["none", "action", "status", "q", "both"])
        if k in ("action", "both"):
            f["action"] = sim.pick("w", ["task.run", " TASK.PAUSE", "other"])
        if k in ("status", "both"):
            f["status"] = sim.pick("w", ["failed", "Succeeded"])
        if k == "q":
            f["q"] = sim.pick("w", ["k1", "done", "ANN", "export", "tasks", "zzz"])
        return f

    def match(self, key, f):
        r = self.want[key]
        if f.get("action") and r["action"] != f["action"].strip().lower():
            return False
        if f.get("status") and r["status"] != f["status"].strip().lower():
            return False
        if f.get("q"):
            text = [r["action"], r["status"], r["target_type"], r["target_id"], r["message"] or "", r["actor"]]
            return any(f["q"].lower() in x.lower() for x in text)
        return True

    def summary(self, keys):
        rs = [self.want[k] for k in keys]
        d = {s: sum(r["status"] == s for r in rs) for s in ("succeeded", "failed", "warning")}
        return dict(d, total=len(rs))


class LogsSubject:
    name = "logs"

    def __init__(self, w, maxlen):
        self.w = w
        self.st = MemoryLogStorage(maxlen=maxlen)
        self.want = {}

    def append(self, key):
        sim = self.w.sim
        base = self.w.wall()
        ts = from_us(base + sim.pick("w", [0, -3 * US, 2 * US]))
        f = dict(ts=ts, level=sim.pick("w", ["INFO", "ERROR", "warning"]), message=sim.pick("w", ["start", "Stop "]) + f" k{key}",
                 logger="asyncz.x", task_id=sim.pick("w", [None, "t1", "t2"]), extra=sim.pick("w", [None, {"run_id": "r1"}, {"a": 1}]))
        self.want[key] = f
        if sim.chance("w", 50):
            return lambda: self.st.append(LogEntry(**f))
        d = dict(f)
        if sim.chance("w", 20):
            d["ts"] = ts.replace(tzinfo=None)
        return lambda: self.st.append(d)

    def key(self, r):
        return int(r.message.rsplit("k", 1)[1])

    def stamp(self, r):
        return None

    def gen_filter(self):
        sim = self.w.sim
        f = {}
        for name, vals in (("task_id", ["t1", "t2"]), ("run_id", ["r1"]), ("level", ["info", "WARNING", "Error"]),
                           ("q", ["STOP", "start", "k1", "zzz"]), ("since", [from_us(self.w.wall() - 1 * US)]),
                           ("until", [from_us(self.w.wall())])):
            if sim.chance("w", 22):
                f[name] = sim.pick("w", vals)
        return f

    def match(self, key, f):
        r = self.want[key]
        return not (f.get("task_id") and r["task_id"] != f["task_id"]
                    or f.get("run_id") and (r["extra"] or {}).get("run_id") != f["run_id"]
                    or f.get("level") and r["level"].upper() != f["level"].upper()
                    or f.get("q") and f["q"].lower() not in r["message"].lower()
                    or f.get("since") and r["ts"] < f["since"]
                    or f.get("until") and r["ts"] > f["until"])

    def summary(self, keys):
        return None


SUBJECTS = [EventsSubject, AuditSubject, LogsSubject]


def direct(sim):
    w = World(sim, ID)
    maxlen = sim.pick("w", [3, 1, 2, 5, 100])
    sub = sim.pick("w", SUBJECTS)(w, maxlen)
    log = Log(w)
    style_for_run(sim, calm=5)
    nkeys = [0]
    script = []
    nthreads = sim.pick("w", [3, 2, 4])
    for _ in range(sim.pick("w", [8, 12, 16])):
        script.append((sim.draw("w", nthreads),
                       sim.wpick("w", [(10, "append"), (6, "query"), (1, "clear"), (2, "summary")])))

    def check(o, rs):
        for r in rs:
            k = sub.key(r)
            if k not in sub.want:
                w.fail("invented", f"{sub.name}: a record of {k} which was never appended: {r}")
            for f, v in sub.want[k].items():
                if getattr(r, f) != v:
                    w.fail("fields", f"{sub.name}: record {k} has {f}={getattr(r, f)!r} instead of {v!r}")
            t = sub.stamp(r)
            if t is not None:
                ap = next(p for p in log.ops if p.kind == "append" and p.a == k)
                if not ap.t0 <= to_us(t) <= (ap.t1 if ap.s1 else w.wall()):
                    w.fail("stamp", f"{sub.name}: record {k} is stamped {t}, it was appended between {ap.t0} and {ap.t1}")
        o.res = tuple(sub.key(r) for r in rs)

    def work(n):
        for t, k in script:
            if t != n:
                continue
            if k == "append":
                key = nkeys[0]
                nkeys[0] += 1
                log.call("append", key, sub.append(key))
            elif k == "query":
                f = sub.gen_filter()
                lim = sim.pick("w", [None, 1, 2, 4])
                kw = dict(f) if lim is None else dict(f, limit=lim)
                o = log.call("query", (f, lim or 200), lambda: list(sub.st.query(**kw)))
                check(o, o.res)
            elif k == "clear":
                log.call("clear", None, sub.st.clear)
            elif sub.name != "logs":
                log.call("summary", None, sub.st.summary)
            if sim.chance("w", 20):
                sim.sleep(sim.pick("w", [1000, 50_000]))
    ths = [sim.spawn(lambda n=n: work(n), name=f"u{n}") for n in range(nthreads)]
    for t in ths:
        sim.join(t)
    calm_down(sim)
    o = log.call("query", ({}, 1000), lambda: list(sub.st.query(limit=1000)))
    check(o, o.res)

    def step(st, o):
        if o.kind == "append":
            return (st + (o.a,))[-maxlen:]
        if o.kind == "clear":
            return ()
        if o.kind == "summary":
            return st if sub.summary(st) == o.res else None
        f, lim = o.a
        got = [k for k in reversed(st) if sub.match(k, f)][:lim]
        return st if tuple(got) == o.res else None
    r = linearize(log.ops, (), step)
    sim.probe("storage_histories", 1)
    if r is None:
        sim.probe("gave_up")
    if r is False:
        w.fail("history", f"{sub.name} (limit {maxlen}): no order of the calls explains their results: "
                          + "; ".join(map(repr, sorted(log.ops, key=lambda o: o.s0))))
    w.close()
    return {"storage": sub.name, "maxlen": maxlen, "calls": len(log.ops)}


# ------------------------------------------------------------------ listeners on a scheduler
def order_ok(w, what, seqs, keys):
    """keys newest first; seqs[key] = (begin, end) of the dispatch."""
    for i, a in enumerate(keys):
        for b in keys[i + 1:]:
            if seqs[a][1] < seqs[b][0]:
                w.fail("order", f"{what}: {b} is listed before {a} although it was dispatched earlier")


def installed(sim):
    w = World(sim, ID)
    E._installed_listeners.clear()
    H._installed_listeners.clear()
    E._storage = H._storage = None
    history = sim.chance("w", 35)
    running = sim.chance("w", 40)
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store("memory")},
             executors={"default": w.make_executor(sim.wpick("w", EXECS))})
    s = h.sched
    style_for_run(sim, calm=5)
    stores = []
    for i in range(sim.pick("w", [1, 1, 2])):
        st = H.MemoryRunHistoryStorage() if history else E.MemorySchedulerEventStorage()
        stores.append(st)
    given = {i: [] for i in range(len(stores))}    # (event, seq0, seq1) in order of the calls
    for i, st in enumerate(stores):
        for name in (("record_submission", "record_execution") if history else ("append",)):
            def tap(event, _r=getattr(st, name), _i=i, **kw):
                given[_i].append(event)
                return _r(event, **kw)
            setattr(st, name, tap)
    mask = H.RUN_EVENT_MASK if history else EV.ALL_EVENTS
    disp = {}

    real = s.dispatch_event

    def dispatched(event):
        s0 = w.seq()
        try:
            return real(event)
        finally:
            if event.code & mask:
                disp[id(event)] = (event, s0, w.seq())
    s.dispatch_event = dispatched
    installs = []       # (s0, s1, storage index)

    def install():
        i = sim.draw("w", len(stores))
        s0 = w.seq()
        if history:
            r = H.install_run_history_listener(s, storage=stores[i])
        else:
            r = E.install_scheduler_event_listener(s, storage=stores[i])
        if r is not stores[i]:
            w.fail("storage", "the installation returned another storage than the one it was given")
        installs.append((s0, w.seq(), i))

    def installer():
        for _ in range(sim.pick("w", [1, 2, 3])):
            install()
            sim.sleep(sim.pick("w", [0, 1000, 100_000, 1 * US]))

    def source(n):
        for j in range(sim.pick("w", [3, 5, 8])):
            t = from_us(w.wall())
            tid = f"e{n}.{j}"
            if sim.chance("w", 60):
                ev = TaskSubmissionEvent(code=EV.TASK_SUBMITTED, task_id=tid, store="default", scheduled_run_times=[t])
            else:
                ev = TaskExecutionEvent(code=EV.TASK_EXECUTED, task_id=tid, store="default", scheduled_run_time=t)
            s.dispatch_event(ev)
            if sim.chance("w", 50):
                sim.sleep(sim.pick("w", [0, 1000, 50_000]))

    if running:
        for i in range(2):
            sp = gen_spec(sim, i, w.wall(), {"default": "x"}, ["default"])
            sp.add(s, w.wall)
        h.start()
    first = sim.chance("w", 40)
    if first:
        install()
    ths = [sim.spawn(installer, name=f"inst{i}") for i in range(sim.pick("w", [2, 1, 3]))]
    ths += [sim.spawn(lambda n=n: source(n), name=f"src{n}") for n in range(sim.pick("w", [1, 2, 3]))]
    for t in ths:
        sim.join(t)
    calm_down(sim)
    if running:
        sim.sleep(3 * US)
        s.pause()
        sim.sleep(5 * US)
        h.shutdown(wait=True)
    ready = min(i[1] for i in installs)
    ident = {id(e): e for e, _, _ in disp.values()}
    for e, s0, s1 in disp.values():
        n = [i for i in given for g in given[i] if g is e]
        if len(n) > 1:
            w.fail("duplicate", f"{e!r} of {getattr(e, 'task_id', None)} was recorded {len(n)} times")
        if not n:
            if s0 > ready:
                w.fail("lost", f"{e!r} of {getattr(e, 'task_id', None)} was not recorded although a listener was installed")
            continue
        # the storage is one an installation overlapping or preceding the dispatch named
        ok = set()
        for a, b, i in installs:
            if a < s1 and not any(c[0] > b and c[1] < s0 for c in installs):
                ok.add(i)
        if n[0] not in ok:
            w.fail("target", f"{e!r} went to storage {n[0]}, the installations say {ok}")
    for i, es in given.items():
        for e in es:
            if id(e) not in ident:
                w.fail("invented", f"{e!r} was recorded without a dispatch")
    if not history:
        for i, st in enumerate(stores):
            rs = st.query(limit=100_000)
            if len(rs) != len(given[i]):
                w.fail("count", f"{len(rs)} records of {len(given[i])} events")
            keys = {(e.code, getattr(e, "task_id", None)): id(e) for e in given[i]
                    if (getattr(e, "task_id", None) or "").startswith("e")}
            order = [keys[(r.code, r.task_id)] for r in rs if (r.code, r.task_id) in keys]
            order_ok(w, "events", {k: (disp[k][1], disp[k][2]) for k in order}, order)
    sim.probe("installations", len(installs))
    sim.probe("events", len(disp))
    h.stop_app()
    w.close()
    return {"listener": "history" if history else "events", "installs": len(installs), "running": running}


# ------------------------------------------------------------------ log handler
def logs(sim):
    w = World(sim, ID)
    lg = logging.getLogger("asyncz")
    root = logging.getLogger()
    null = logging.NullHandler()
    old = lg.level
    before = list(lg.handlers)
    root.addHandler(null)
    LH._handler = None
    logging.disable(logging.NOTSET)
    try:
        return _logs(sim, w)
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(null)
        for x in list(lg.handlers):
            if x not in before:
                lg.removeHandler(x)
        LH._handler = None
        lg.setLevel(old)


def _logs(sim, w):
    style_for_run(sim, calm=5)
    stores = [MemoryLogStorage(maxlen=sim.pick("w", [1000, 1000, 4]))]
    if sim.chance("w", 30):
        stores.append(MemoryLogStorage())
    lost = stores[0].buffer.maxlen == 4
    got = {i: [] for i in range(len(stores))}
    for i, st in enumerate(stores):
        def tap(entry, _r=st.append, _i=i):
            r = _r(entry)
            got[_i].append(entry["message"])
            return r
        st.append = tap
    installs = []
    sent = {}

    def install():
        i = sim.draw("w", len(stores))
        s0 = w.seq()
        r = LH.install_task_log_handler(stores[i])
        installs.append((s0, w.seq(), i, r))

    def installer():
        for _ in range(sim.pick("w", [1, 2])):
            install()
            sim.sleep(sim.pick("w", [0, 1000, 50_000]))

    def talk(n):
        for j in range(sim.pick("w", [2, 4, 6])):
            m = f"m{n}.{j}"
            name = sim.pick("w", ["asyncz", "asyncz.schedulers", "asyncz.executors.default"])
            k = sim.pick("w", ["task", "extra", "plain"])
            lvl = sim.pick("w", ["info", "error", "warning"])
            tid = None
            ex = {}
            s0, t0 = w.seq(), w.wall()
            if k == "task":
                tid = f"t{n}"
                getattr(LH.get_task_logger(tid, name), lvl)("%s", m)
            elif k == "extra":
                tid = f"x{j}"
                ex = {"run_id": "r1"}
                getattr(logging.getLogger(name), lvl)(m, extra={sim.pick("w", ["task_id", "job_id"]): tid, "run_id": "r1"})
            else:
                getattr(logging.getLogger(name), lvl)(m)
            sent[m] = (s0, w.seq(), t0, w.wall(), name, lvl.upper(), tid, ex)
            if sim.chance("w", 40):
                sim.sleep(sim.pick("w", [0, 1000, 50_000]))

    def reader():
        for _ in range(3):
            for st in stores:
                rs = list(st.query(limit=50))
                if len(rs) > st.buffer.maxlen:
                    w.fail("limit", f"{len(rs)} log entries")
            sim.sleep(sim.pick("w", [1000, 50_000]))
    if sim.chance("w", 40):
        install()
    ths = [sim.spawn(installer, name=f"inst{i}") for i in range(sim.pick("w", [2, 1, 3]))]
    ths += [sim.spawn(lambda n=n: talk(n), name=f"log{n}") for n in range(sim.pick("w", [1, 2, 3]))]
    ths.append(sim.spawn(reader, name="reader"))
    for t in ths:
        sim.join(t)
    calm_down(sim)
    if len({id(i[3]) for i in installs}) > 1:
        w.fail("handlers", "several installations of the log handler gave different handlers")
    ready = min(i[1] for i in installs)
    for m, (s0, s1, *_) in sent.items():
        n = sum(x.count(m) for x in got.values())
        if n > 1:
            w.fail("duplicate", f"the message {m} was recorded {n} times")
        if n == 0 and s0 > ready:
            w.fail("lost", f"the message {m} was not recorded")
    for i, st in enumerate(stores):
        rs = list(st.query(limit=1000))
        mine = [r for r in rs if r.message in sent]
        if len(rs) != min(len(got[i]), st.buffer.maxlen):
            w.fail("count", f"{len(rs)} entries of {len(got[i])} messages, limit {st.buffer.maxlen}")
        for r in mine:
            s0, s1, t0, t1, name, lvl, tid, ex = sent[r.message]
            if (r.logger, r.level, r.task_id) != (name, lvl, tid):
                w.fail("fields", f"{r} was logged by {name} at {lvl} for {tid}")
            if not t0 - 1 <= to_us(r.ts) <= t1 + 1:
                w.fail("stamp", f"{r} was logged between {from_us(t0)} and {from_us(t1)}")
            if any((r.extra or {}).get(a) != b for a, b in ex.items()):
                w.fail("fields", f"{r} was logged with {ex}")
        order_ok(w, "logs", {m: sent[m][:2] for m in sent}, [r.message for r in mine])
    sim.probe("messages", len(sent))
    sim.probe("installations", len(installs))
    w.close()
    return {"handler": True, "messages": len(sent), "installs": len(installs)}


def run(sim):
    k = sim.wpick("w", [(5, "direct"), (4, "installed"), (2, "logs")])
    return {"direct": direct, "installed": installed, "logs": logs}[k](sim)
