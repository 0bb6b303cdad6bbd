"""C15 Run history converges to the true outcome of every run."""
from asyncz.contrib.dashboard import history as H  # noqa

from ..kernel import US, SimKilled, Violation
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import STUB

ID = "C15"
RUNS_QUICK = 4000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["asyncz.contrib.dashboard.history (storage, listener)", "schedulers, executors, stores, triggers, tasks, events"]
TERM = {"succeeded", "failed", "missed", "max_instances"}
STATUS = {EV.TASK_EXECUTED: "succeeded", EV.TASK_ERROR: "failed", EV.TASK_MISSED: "missed"}


class Odd:
    """A value that can not be shown."""

    def __repr__(self):
        raise ValueError("no repr")


class OddError(Exception):
    def __str__(self):
        raise ValueError("no str")

    __repr__ = __str__


class Key:
    """What was recorded for one task, store and run time."""

    def __init__(self, k):
        self.k = k
        self.subs = []
        self.execs = []
        self.first = self.last = None      # seq of the first call that recorded it / end of the last


class Truth:
    """The events the history was given, in the order of the calls."""

    def __init__(self, w, storage):
        self.w = w
        self.keys = {}
        self.calls = []         # (seq0, seq1, [keys])
        self.seen = {}
        for name in ("record_submission", "record_execution"):
            self.tap(storage, name)

    def tap(self, storage, name):
        real = getattr(storage, name)
        w = self.w

        def method(event, **kw):
            s0 = w.seq()
            ts = [event.scheduled_run_time] if name == "record_execution" else event.scheduled_run_times
            ks = [self.key(event, t) for t in ts]
            for k in ks:
                if k.first is None:
                    k.first = s0
            try:
                return real(event, **kw)
            except (SimKilled, Violation):
                raise
            except Exception as e:
                w.fail("raised", f"{name} of {event!r} raised {type(e).__name__}: {e}")
            finally:
                s1 = w.seq()
                for k in ks:
                    (k.execs if name == "record_execution" else k.subs).append((s0, s1, event))
                    k.last = s1
                self.calls.append((s0, s1, ks))
        setattr(storage, name, method)

    def key(self, event, t):
        k = (event.task_id, event.store, to_us(t))
        if k not in self.keys:
            self.keys[k] = Key(k)
        return self.keys[k]


def rkey(r):
    return (r.task_id, r.store, to_us(r.scheduled_run_time))


def last_of(calls):
    """The calls that may have come last."""
    return [c for c in calls if not any(d[0] > c[1] for d in calls)]


def shown(v):
    try:
        r = repr(v)
    except Exception:
        r = f"<{type(v).__name__}>"
    return r if len(r) <= 500 else r[:497] + "..."


def message(v):
    try:
        r = str(v)
    except Exception:
        r = f"<{type(v).__name__}>"
    return r if len(r) <= 500 else r[:497] + "..."


def observe(w, st, seen, steady):
    """A reader of the history at any time."""
    sim = w.sim
    try:
        k = sim.pick("o", ["query", "summary", "get", "latest", "filter"])
        if k == "summary":
            s = st.summary()
            if s["total"] != sum(s[x] for x in TERM | {"running"}):
                w.fail("summary", f"the summary does not add up: {s}")
            if s["total"] > st.maxlen:
                w.fail("limit", f"{s['total']} records, the limit is {st.maxlen}")
            return
        if k == "latest":
            st.latest_for_task("t0")
            return
        rs = st.query(limit=10 ** 6) if k != "filter" else \
            st.query(status=sim.pick("o", ["running", "failed"]), q="t", source=None, limit=10 ** 6)
        if len(rs) > st.maxlen:
            w.fail("limit", f"{len(rs)} records, the limit is {st.maxlen}")
        ks = [rkey(r) for r in rs]
        if len(set(ks)) != len(ks):
            w.fail("duplicate", f"several records of one run: {sorted(x for x in ks if ks.count(x) > 1)}")
        if steady:
            for r in rs:
                s = r.status
                if s == "running" and seen.get(r.run_id) in TERM:
                    w.fail("regressed", f"the record of {rkey(r)} went from {seen[r.run_id]} back to running")
                seen[r.run_id] = s
        if k == "get" and rs:
            st.get(rs[0].run_id)
    except (SimKilled, Violation):
        raise
    except Exception as e:
        w.fail("raised", f"reading the history raised {type(e).__name__}: {e}")


def final(w, st, truth, ident, extra=""):
    rs = st.query(limit=10 ** 6)
    if len(rs) > st.maxlen:
        w.fail("limit", f"{len(rs)} records, the limit is {st.maxlen}")
    got = {}
    for r in rs:
        if rkey(r) in got:
            w.fail("duplicate", f"two records of {rkey(r)}")
        got[rkey(r)] = r
        if rkey(r) not in truth.keys:
            w.fail("invented", f"a record of {rkey(r)} which nothing was recorded about")
    if len(rs) != min(st.maxlen, len(truth.keys)) and not (len(truth.keys) > st.maxlen and len(rs) <= st.maxlen):
        w.fail("count", f"{len(rs)} records of {len(truth.keys)} runs (limit {st.maxlen})")
    if len(truth.keys) > st.maxlen and len(rs) != st.maxlen:
        w.fail("evicted", f"only {len(rs)} records left of {len(truth.keys)} runs (limit {st.maxlen})")
    for k in truth.keys.values():
        # how many other runs were recorded since this one could have been new
        later = {id(x) for a, b, ks in truth.calls if b > k.first for x in ks if x is not k}
        r = got.get(k.k)
        if r is None:
            if len(later) < st.maxlen:
                w.fail("lost", f"there is no record of {k.k} although only {len(later)} other runs were recorded since")
            continue
        if len(later) >= st.maxlen:
            continue       # it may have been evicted and recorded again in between
        where = f"record of {k.k[0]!r} {k.k[1]!r} {w.rel(k.k[2])}"
        if k.execs:
            poss = last_of(k.execs)
            if not any(agrees(r, e[2]) for e in poss):
                e = poss[-1][2]
                w.fail("outcome", f"{where}: it says {r.status}, value {r.return_value}, error {r.exception_type} "
                                  f"{r.exception_message}, but the run ended with {EVNAME[e.code]}, value "
                                  f"{shown(e.return_value)}, error {shown(e.exception)}")
            if r.finished_at is None or r.submitted_at is None or r.submitted_at > r.finished_at:
                w.fail("times", f"{where}: submitted {r.submitted_at}, finished {r.finished_at}")
        else:
            codes = {e[2].code for e in k.subs}
            ok = {"max_instances"} if codes == {EV.TASK_MAX_INSTANCES} else {"running"} if \
                codes == {EV.TASK_SUBMITTED} else {"running", "max_instances"}
            if r.status not in ok:
                w.fail("status", f"{where}: it says {r.status} but the run is {ok}")
            if (r.finished_at is not None) != (r.status in TERM):
                w.fail("times", f"{where}: status {r.status}, finished {r.finished_at}")
        if k.subs:
            src = {str(e[2].source or "scheduled") for e in k.subs}
            if r.source not in src:
                w.fail("source", f"{where}: source {r.source}, submitted as {src}")
            co = max(e[2].coalesced_run_count for e in k.subs)
            if r.coalesced_run_count != co:
                w.fail("coalesced", f"{where}: coalesced {r.coalesced_run_count}, the submission says {co}")
        elif r.source != "unknown" or r.coalesced_run_count:
            w.fail("source", f"{where}: source {r.source}, coalesced {r.coalesced_run_count} without a submission")
        if r.scheduler_identity != ident:
            w.fail("identity", f"{where}: scheduler {r.scheduler_identity!r} instead of {ident!r}")
        if st.get(r.run_id) is not r and rkey(st.get(r.run_id)) != k.k:
            w.fail("get", f"{where}: its id {r.run_id} finds {st.get(r.run_id)}")
    # evicted oldest first
    if len(truth.keys) > st.maxlen:
        alive = [k for k in truth.keys.values() if k.k in got]
        gone = [k for k in truth.keys.values() if k.k not in got]
        for k in alive:
            first_end = min(c[1] for c in k.subs + k.execs)
            if len(k.subs + k.execs) == 1:
                for g in gone:
                    if g.first > first_end:
                        w.fail("eviction", f"{g.k} was evicted although it was recorded after {k.k}")
    s = st.summary()
    want = {x: sum(r.status == x for r in rs) for x in TERM | {"running"}}
    if s["total"] != len(rs) or any(s[x] != n for x, n in want.items()):
        w.fail("summary", f"summary {s}, records {want} of {len(rs)}")
    # filters
    for x in TERM | {"running"}:
        if {rkey(r) for r in st.query(status=x, limit=10 ** 6)} != {k for k, r in got.items() if r.status == x}:
            w.fail("filter", f"the filter status={x} gives something else than the records with it")
    for x in {r.task_id for r in rs}:
        if {rkey(r) for r in st.query(task_id=x, limit=10 ** 6)} != {k for k, r in got.items() if r.task_id == x}:
            w.fail("filter", f"the filter task_id={x!r} gives something else than the records with it")
    for x in {r.source for r in rs}:
        if {rkey(r) for r in st.query(source=x, limit=10 ** 6)} != {k for k, r in got.items() if r.source == x}:
            w.fail("filter", f"the filter source={x!r} gives something else than the records with it")
    when = [r.finished_at or r.submitted_at for r in rs]
    if any(a is not None and b is not None and a < b for a, b in zip(when, when[1:])):
        w.fail("order", "the records are not listed newest first")
    n = max(1, len(rs) // 2)
    if rs and len(st.query(limit=n)) != n:
        w.fail("filter", f"limit={n} gives {len(st.query(limit=n))} records")
    return got


def agrees(r, e):
    if r.status != STATUS[e.code]:
        return False
    if r.return_value != (shown(e.return_value) if e.return_value is not None else None):
        return False
    if e.exception is None:
        return r.exception_type is None and r.exception_message is None
    return r.exception_type is not None and r.exception_type.endswith(type(e.exception).__qualname__) and \
        r.exception_message == message(e.exception)


def run(sim):
    if sim.chance("w", 40):
        return direct(sim)
    w = World(sim, ID)
    kinds = {"default": sim.wpick("w", EXECS)}
    if sim.chance("w", 30):
        kinds["x"] = sim.wpick("w", EXECS)
    inline = "debug" in kinds.values()
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store(sim.wpick("w", STORES))},
             executors={a: w.make_executor(k) for a, k in kinds.items()})
    st = H.MemoryRunHistoryStorage(maxlen=sim.pick("w", [5000, 5000, 5000, 12, 3, 1]))
    truth = Truth(w, st)
    w.default_plan = Plan((0, 10_000) if inline else (0, 0, 300_000, 1_500_000),
                          ((6, "ret"), (2, "exc"), (1, "none")))
    n = sim.pick("w", [1, 2, 3, 4])
    specs = []
    for i in range(n):
        sp = gen_spec(sim, i, w.wall(), kinds, ["default"], max_choices=(50, 1, 2), graces=(None, 1, 3))
        sp.add(h.sched, w.wall)
        specs.append(sp)
    # a backlog for coalescing and missed runs
    sim.sleep(sim.pick("w", [0, 0, 5 * US]))
    style_for_run(sim, calm=15)
    late_install = sim.chance("w", 15)
    logs = None
    if sim.chance("w", 30):
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
        logs = MemoryLogStorage(maxlen=50)
    if not late_install:
        H.install_run_history_listener(h.sched, storage=st, log_storage=logs)
    h.start()
    if late_install:
        H.install_run_history_listener(h.sched, storage=st, log_storage=logs)
    seen = {}
    stop = []

    def reader():
        while not stop:
            observe(w, st, seen, st.maxlen > 100)
            sim.sleep(sim.pick("o", [1 * US, 300_000, 999_999, 50_000]))

    def client():
        for _ in range(sim.rint("w", 1, 5)):
            sim.sleep(sim.pick("w", [1 * US, 300_000, 999_000, 2 * US]))
            tid = f"t{sim.draw('w', n)}"
            a = sim.wpick("w", [(5, "run"), (1, "pause"), (1, "resume"), (1, "delete"), (1, "install")])
            try:
                if a == "run":
                    h.run_task(tid)
                elif a == "pause":
                    h.sched.pause_task(tid)
                elif a == "resume":
                    h.sched.resume_task(tid)
                elif a == "delete":
                    h.sched.delete_task(tid)
                elif sim.chance("w", 50):
                    H.install_run_history_listener(h.sched, storage=st, log_storage=logs)
            except (TaskLookupError, MaximumInstancesError):
                pass
    rd = sim.spawn(reader, name="reader")
    cl = [sim.spawn(client, name=f"client{i}") for i in range(sim.pick("w", [1, 2]))]
    for t in cl:
        sim.join(t)
    sim.sleep(sim.pick("w", [1 * US, 4 * US]))
    calm_down(sim)
    h.sched.pause()
    sim.sleep(6 * US)
    stop.append(1)
    sim.join(rd)
    # a backlog of many long runs takes its time (no single run is this long); a shutdown would cancel it
    seen_before = None
    while seen_before != (len(w.calls), len(w.events)):
        seen_before = (len(w.calls), len(w.events))
        sim.sleep(10 * US)
    h.shutdown(wait=True)
    sim.sleep(10 * US)
    # everything the first listener saw reached the history (installed before the start)
    if not late_install:
        for e in w.events:
            if e.code & H.RUN_EVENT_MASK:
                for t in e.times:
                    k = truth.keys.get((e.task_id, e.event.store, t))
                    mine = [] if k is None else [x for x in (k.execs + k.subs) if x[2] is e.event]
                    if len(mine) != 1:
                        w.fail("recorded", f"{e} was recorded {len(mine)} times")
    got = final(w, st, truth, "s")
    # what really happened
    for k in truth.keys.values():
        r = got.get(k.k)
        # (a listener installed while the run went on may have seen the submission only)
        if r is not None and k.subs and not k.execs and r.status == "running" and not late_install:
            w.fail("unfinished", f"the record of {k.k[0]} {w.rel(k.k[2])} is still running although all runs are over")
    sim.probe("runs", len(truth.keys))
    sim.probe("exec_first", sum(bool(k.execs and k.subs and k.execs[0][1] < k.subs[0][0]) for k in truth.keys.values()))
    sim.probe("overlapping", sum(any(a[0] < b[1] and b[0] < a[1] for a in k.execs for b in k.subs)
                                 for k in truth.keys.values()))
    h.stop_app()
    w.close()
    return {"executors": kinds, "maxlen": st.maxlen, "runs": len(truth.keys)}


class Dummy:
    """A scheduler as far as the history needs one."""
    identity = "s"

    def get_task(self, *a):
        return None


def direct(sim):
    """Events of many runs are recorded by several threads in any order."""
    w = World(sim, ID)
    st = H.MemoryRunHistoryStorage(maxlen=sim.pick("w", [5000, 5000, 20, 4, 1]))
    truth = Truth(w, st)
    style_for_run(sim, calm=10)
    ids = sim.pick("w", [["t0"], ["t0", "t1", "t2"], ["a|b", "a", "t0", "b|c"]])
    stores = sim.pick("w", [["default"], ["default", "x"], ["b|c", "c", None], [None, "", "b"]])
    base = w.wall() // US * US
    jobs = []
    dummy = Dummy()
    nthreads = sim.pick("w", [2, 3, 4])
    same = sim.chance("w", 40)
    for i in range(sim.rint("w", 1, 8)):
        if same:
            i = i // 4
        tid, store = sim.pick("w", ids), sim.pick("w", stores)
        times = [base + 1000 * i * US + j * US for j in range(sim.pick("w", [1, 1, 2, 3]))]
        zone = sim.pick("w", [UTC, dtm.timezone(dtm.timedelta(hours=2))])
        mx = sim.chance("w", 15)
        src = sim.pick("w", ["scheduled", "manual", None])
        co = sim.pick("w", [0, 0, 3]) if len(times) == 1 else 0
        sub = TaskSubmissionEvent(code=EV.TASK_MAX_INSTANCES if mx else EV.TASK_SUBMITTED, task_id=tid, store=store,
                                  scheduled_run_times=[from_us(t).astimezone(zone) for t in times], source=src,
                                  coalesced_run_count=co, scheduler_identity="s")
        evs = [("record_submission", sub)]
        if not mx:
            for t in times:
                k = sim.pick("w", ["ok", "none", "exc", "missed", "odd", "odderr", "long", "never"])
                kw = {}
                code = EV.TASK_EXECUTED
                if k == "ok":
                    kw = {"return_value": f"r{sim.fresh()}"}
                elif k == "odd":
                    kw = {"return_value": Odd()}
                elif k == "long":
                    kw = {"return_value": "x" * 700}
                elif k in ("exc", "odderr"):
                    code = EV.TASK_ERROR
                    kw = {"exception": (OddError if k == "odderr" else ValueError)(f"e{sim.fresh()}"), "traceback": "tb"}
                elif k == "missed":
                    code = EV.TASK_MISSED
                elif k == "never":
                    continue
                evs.append(("record_execution", TaskExecutionEvent(code=code, task_id=tid, store=store, scheduler_identity="s",
                                                                   scheduled_run_time=from_us(t).astimezone(zone), **kw)))
        if sim.chance("w", 40):
            evs.append(evs.pop(0))
        for e in evs:
            jobs.append((sim.draw("w", nthreads), e))
    seen = {}

    def work(n):
        for t, (name, ev) in jobs:
            if t == n:
                getattr(st, name)(ev, scheduler=dummy)
                if sim.chance("o", 40):
                    observe(w, st, seen, st.maxlen > 100)
    ths = [sim.spawn(lambda n=n: work(n), name=f"rec{n}") for n in range(nthreads)]
    for t in ths:
        sim.join(t)
    calm_down(sim)
    final(w, st, truth, "s")
    sim.probe("runs", len(truth.keys))
    sim.probe("overlapping", sum(any(a[0] < b[1] and b[0] < a[1] for a in k.execs for b in k.subs)
                                 for k in truth.keys.values()))
    w.close()
    return {"maxlen": st.maxlen, "runs": len(truth.keys), "threads": nthreads}
