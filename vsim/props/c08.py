"""C08 All task stores behave as the same durable sorted map."""
from ..kernel import US
from ..world import *  # noqa
from ..storetools import *  # noqa
from ..storetools import Backend, fprint, gen_next, gen_task, gen_trigger_obj, nxt_us, store_exc, zone_name

ID = "C08"
RUNS_QUICK = 6000
RUNS_THOROUGH = 300000
WALL_QUICK = 120
LEVEL = "exploration"
REAL = ["the five task stores, tasks, triggers, pickling, persistence envelopes", "redis-py client, SQLAlchemy + SQLite, pymongo errors"]
STUB = ["redis server, mongo client+server (model), file system (model), clock"]
BIG = 1 << 62


def run(sim):
    w = World(sim, ID)
    kind = sim.pick("w", ["memory", "file", "redis", "mongo", "sql"])
    key = sim.chance("w", 25)
    import os
    if key:
        os.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = "k1"
    try:
        return body(sim, w, kind, key)
    finally:
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)


def body(sim, w, kind, key):
    sched = AsyncIOScheduler(timezone="UTC", identity="s")
    be = Backend(w, kind)
    st = be.open(sched)
    faulty = kind not in ("memory", "file") and sim.chance("w", 40)
    arm = [None]

    def fault():
        if arm[0] is None:
            return None
        arm[0][0] -= 1
        if arm[0][0] < 0:
            f = arm[0][1]
            arm[0] = None
            return f
        return None
    if faulty:
        be.set_fault(fault)
    errs = store_exc()
    pool = sim.pick("w", [IDS[:3], IDS, IDS[:6], [f"t{i}" for i in range(8)]])
    model = {}          # id -> fingerprint of what was last stored
    live = {}           # id -> the last task object stored or read
    trace = []

    def tr(*a):
        trace.append(a)
        sim.note(kind, *a)

    def bad(kind_, msg):
        w.fail(kind_, f"{be.kind} store: {msg}; calls so far: {trace[-8:]}")

    def nx(fp):
        return fp[9] if fp[9] is not None else BIG

    def compare(tid, got, want, how):
        if got != want:
            diff = [(i, a, b) for i, (a, b) in enumerate(zip(got, want)) if a != b]
            bad("field", f"{how} of {tid!r} differs from what was stored: {diff}")

    def check_list(ts, want_ids, how):
        ids = [t.id for t in ts]
        if sorted(ids) != sorted(want_ids):
            bad("listing", f"{how} gave {ids}, expected {sorted(want_ids, key=lambda i: nx(model[i]))}")
        order = [nx(model[i]) for i in ids]
        if order != sorted(order):
            bad("order", f"{how} gave {[(i, w.rel(model[i][9])) for i in ids]} which is not in run time order with paused "
                         "tasks last")
        for t in ts:
            compare(t.id, fprint(t), model[t.id], how)
            if t.store_alias != "default" or t.scheduler is not sched:
                bad("binding", f"{how}: task {t.id!r} belongs to store {t.store_alias!r}")

    def ambiguous(tid, old, new, e):
        """The call failed with the backend: it must have taken effect completely or not at all."""
        arm[0] = None
        t = st.lookup_task(tid)
        got = None if t is None else fprint(t)
        if got == new:
            res = new
        elif got == old:
            res = old
        else:
            bad("partial", f"after {trace[-1]} failed with {type(e).__name__}, {tid!r} is neither as before nor as requested: {got}")
        if res is None:
            model.pop(tid, None)
        else:
            model[tid] = res

    for _ in range(sim.rint("w", 4, 40)):
        sim.sleep(sim.pick("w", [0, 1, 1000, 2 * US]))
        now = w.wall()
        op = sim.wpick("w", [(6, "add"), (5, "update"), (3, "delete"), (3, "lookup"), (3, "due"), (2, "next"), (2, "list"),
                             (1, "reopen"), (1, "clear")])
        tid = sim.pick("w", pool)
        if faulty and sim.chance("f", 15):
            arm[0] = [sim.rint("f", 0, 3), sim.pick("f", ["before", "after"])]
        try:
            if op == "add":
                t = gen_task(sim, sched, tid, now)
                fp = fprint(t)
                tr("add", tid, str(t.next_run_time))
                old = model.get(tid)
                try:
                    st.add_task(t)
                except ConflictIdError:
                    arm[0] = None
                    if old is None:
                        bad("conflict", f"adding the missing {tid!r} reported a conflict")
                    compare(tid, fprint(st.lookup_task(tid)), old, "the kept task after a refused add")
                except errs as e:
                    if not faulty:
                        raise
                    ambiguous(tid, old, old if old is not None else fp, e)
                    if old is not None and model.get(tid) != old:
                        bad("overwrite", f"a failing add replaced {tid!r}")
                else:
                    if old is not None:
                        bad("no_conflict", f"adding the existing {tid!r} was accepted")
                    model[tid] = fp
                    live[tid] = t
            elif op == "update":
                old = model.get(tid)
                how = sim.pick("w", ["fresh", "object", "read"])
                if how == "read" and old is not None:
                    a, arm[0] = arm[0], None
                    t = st.lookup_task(tid)
                    arm[0] = a
                elif how == "object" and tid in live and old is not None:
                    t = live[tid]
                else:
                    t = gen_task(sim, sched, tid, now)
                nn = gen_next(sim, now)
                tr("update", tid, how, str(nn))
                t.next_run_time = nn
                if sim.chance("w", 50):
                    t.update_task(name=f"n{sim.fresh()}", coalesce=bool(sim.pick("w", [0, 1])), max_instances=sim.rint("w", 1, 9))
                if sim.chance("w", 25):
                    t.update_task(trigger=gen_trigger_obj(sim, now))
                fp = fprint(t)
                try:
                    st.update_task(t)
                except TaskLookupError:
                    if old is not None:
                        bad("lookup_error", f"updating the existing {tid!r} reported it missing")
                except errs as e:
                    if not faulty:
                        raise
                    live.pop(tid, None)
                    ambiguous(tid, old, fp if old is not None else None, e)
                else:
                    if old is None:
                        bad("created", f"updating the missing {tid!r} was accepted")
                    model[tid] = fp
                    live[tid] = t
            elif op == "delete":
                tr("delete", tid)
                old = model.get(tid)
                try:
                    st.delete_task(tid)
                except TaskLookupError:
                    if old is not None:
                        bad("lookup_error", f"deleting the existing {tid!r} reported it missing")
                except errs as e:
                    if not faulty:
                        raise
                    ambiguous(tid, old, None, e)
                else:
                    if old is None:
                        bad("deleted", f"deleting the missing {tid!r} was accepted")
                    del model[tid]
            elif op == "lookup":
                tr("lookup", tid)
                t = st.lookup_task(tid)
                if (t is None) != (tid not in model):
                    bad("lookup", f"lookup of {tid!r} gave {t!r}")
                if t is not None:
                    compare(tid, fprint(t), model[tid], "lookup")
            elif op == "due":
                cand = [m[9] for m in model.values() if m[9] is not None]
                at = sim.pick("w", cand) + sim.pick("w", [0, -1, 1]) if cand and sim.chance("w", 70) else now
                tr("due", w.rel(at))
                check_list(st.get_due_tasks(from_us(at)), [i for i, m in model.items() if nx(m) <= at], f"due({w.rel(at)})")
            elif op == "next":
                tr("next",)
                got = st.get_next_run_time()
                want = min((nx(m) for m in model.values()), default=BIG)
                if nxt_us(got) != (None if want == BIG else want):
                    bad("next", f"the next run time is {got}, expected {None if want == BIG else from_us(want)}")
            elif op == "list":
                tr("list",)
                check_list(st.get_all_tasks(), list(model), "the listing")
            elif op == "reopen":
                if kind != "memory":
                    tr("reopen",)
                    arm[0] = None
                    if sim.chance("w", 50):
                        st.shutdown()
                    st = be.open(sched)
                    live.clear()
            elif op == "clear":
                if sim.chance("w", 30):
                    tr("clear",)
                    before = dict(model)
                    try:
                        st.remove_all_tasks()
                        model.clear()
                        live.clear()
                    except errs:
                        if not faulty:
                            raise
                        arm[0] = None
                        left = {t.id: fprint(t) for t in st.get_all_tasks()}
                        if left and left != before:
                            bad("partial", "a failed remove_all_tasks removed some of the tasks")
                        model.clear()
                        model.update(left)
        except errs:
            # a failing read
            if not faulty or op not in ("lookup", "due", "next", "list"):
                raise
        arm[0] = None
    tr("end",)
    check_list(st.get_all_tasks(), list(model), "the final listing")
    if kind != "memory":
        st.shutdown()
        st = be.open(sched)
        tr("reopened",)
        check_list(st.get_all_tasks(), list(model), "the listing after reopening")
        want = min((nx(m) for m in model.values()), default=BIG)
        if nxt_us(st.get_next_run_time()) != (None if want == BIG else want):
            bad("next", f"after reopening the next run time is {st.get_next_run_time()}")
    sim.probe("ops", len(trace))
    sim.probe("tasks", len(model))
    st.shutdown()
    w.close()
    return {"store": kind, "encrypted": key, "calls": [repr(t) for t in trace][-30:]}
