"""C10 Stores shared by several processes or threads are linearizable."""
from ..kernel import US, Proc, SimKilled
from ..world import *  # noqa
from ..storetools import *  # noqa
from ..storetools import Backend, fprint, gen_task, nxt_us, store_exc
from .c09 import GARBAGE
from .. import fs as fsmod

ID = "C10"
RUNS_QUICK = 6000
RUNS_THOROUGH = 300000
WALL_QUICK = 150
LEVEL = "exploration"
REAL = ["file, redis, mongo and SQLAlchemy stores, file locking, tasks, pickling", "redis-py client, SQLAlchemy + SQLite"]
STUB = ["redis server, mongo client+server (model; one request is atomic)", "an SQL transaction is one atomic step",
        "file system and flock (model)", "thread and process scheduling, clock"]


class O:
    __slots__ = ("n", "k", "kind", "tid", "fp", "at", "s0", "s1", "res", "got")

    def __repr__(self):
        g = {a: (b and b[1]) for a, b in self.got.items()} if isinstance(self.got, dict) else self.got
        return f"<w{self.k} {self.kind} {self.tid or ''} {self.fp[1] if self.fp else ''} -> {self.res or ''} {g or ''}>"


def run(sim):
    w = World(sim, ID)
    kind = sim.wpick("w", [(4, "file"), (3, "redis"), (2, "mongo"), (2, "sql")])
    be = Backend(w, kind)
    nw = sim.rint("w", 2, 4)
    ids = [f"t{i}" for i in range(sim.pick("w", [1, 1, 2, 3]))]
    same_proc = sim.chance("w", 30)      # threads of one process sharing one store object
    style = sim.pick("w", [2, 1, 1])
    a, b = sim.pick("w", [(0, 6), (0, 10), (4, 14)])
    sim.configure_preemption(style, a, b, stalls=sim.chance("w", 50), stall_max_us=3 * US)
    crash = sim.chance("w", 30) and not same_proc
    lost = kind in ("redis", "mongo", "sql") and sim.chance("w", 25)
    errs = store_exc()
    on = [True]
    if lost:
        be.set_fault(lambda: sim.pick("f", ["before", "after"]) if on[0] and sim.chance("f", 6) else None)
    ops = []
    setup_sched = AsyncIOScheduler(timezone="UTC", identity="x")
    on[0] = False
    st0 = be.open(setup_sched)
    # some ids may hold a record nobody can decode: readers drop it, but never what replaces it
    spoiled = [i for i in ids if sim.chance("f", 50)] if sim.chance("f", 20) else []
    for i in spoiled:
        st0.add_task(gen_task(sim, setup_sched, i, w.wall(), wide=False))
        be.put_raw(i, sim.pick("f", GARBAGE))
        sim.fault("undecodable_record")
    on[0] = True
    if crash:
        at = [sim.rint("f", 5, 150)]

        def plan(op, path):
            if sim.cur.proc is sim.default_proc:
                return False
            at[0] -= 1
            return at[0] == 0
        if kind == "file":
            w.fs.crash_plan = plan

    def begin(k, kd, tid=None, fp=None, at=None):
        o = O()
        o.n, o.k, o.kind, o.tid, o.fp, o.at = len(ops), k, kd, tid, fp, at
        o.s0, o.s1, o.res, o.got = w.seq(), None, None, None
        ops.append(o)
        sim.note("op", k, kd, tid, fp[1] if fp else None)
        return o

    def worker(k, st, sched, n):
        for _ in range(n):
            sim.sleep(sim.pick("w", [0, 0, 100, 1000]))
            now = w.wall()
            kd = sim.wpick("w", [(4, "add"), (4, "update"), (3, "delete"), (4, "lookup"), (3, "list"), (2, "due"), (1, "clear")])
            tid = sim.pick("w", ids)
            o = None
            try:
                if kd in ("add", "update"):
                    t = gen_task(sim, sched, tid, now, wide=False)
                    o = begin(k, kd, tid, fprint(t))
                    (st.add_task if kd == "add" else st.update_task)(t)
                    o.res = "ok"
                elif kd == "delete":
                    o = begin(k, kd, tid)
                    st.delete_task(tid)
                    o.res = "ok"
                elif kd == "lookup":
                    o = begin(k, kd, tid)
                    try:
                        t = st.lookup_task(tid)
                    except errs:
                        raise
                    except Exception as e:  # noqa
                        if tid not in spoiled:
                            raise
                        o.res, o.s1 = "undecodable", w.seq()
                        sim.note("op-undecodable", o.n, type(e).__name__)
                        continue
                    o.got = {tid: None if t is None else fprint(t)}
                    o.res = "ok"
                elif kd == "list":
                    o = begin(k, kd)
                    ts = st.get_all_tasks()
                    o.got = {t.id: fprint(t) for t in ts}
                    if len(o.got) != len(ts):
                        w.fail("twice", f"{kind}: a listing shows a task twice: {[t.id for t in ts]}")
                    o.res = "ok"
                elif kd == "due":
                    o = begin(k, kd, at=now)
                    ts = st.get_due_tasks(from_us(now))
                    o.got = {t.id: fprint(t) for t in ts}
                    if len(o.got) != len(ts):
                        w.fail("twice", f"{kind}: a due query shows a task twice: {[t.id for t in ts]}")
                    for t in ts:
                        if t.next_run_time is None or to_us(t.next_run_time) > now:
                            w.fail("not_due", f"{kind}: a due query for {w.rel(now)} returned {t.id} as it is at "
                                              f"{t.next_run_time}")
                    o.res = "ok"
                elif kd == "clear":
                    if not sim.chance("w", 50):
                        continue
                    o = begin(k, kd)
                    st.remove_all_tasks()
                    o.res = "ok"
            except ConflictIdError:
                o.res = "conflict"
            except TaskLookupError:
                o.res = "missing"
            except errs as e:
                if not lost or o is None:
                    raise
                # unknown: may take effect or not
                o.res = "unknown"
                o.s1 = w.seq() if kd in ("lookup", "list", "due") else None
                sim.note("op-failed", o.n, type(e).__name__)
                continue
            o.s1 = w.seq()
            sim.note("op-end", o.n, o.res)
    ths = []
    shared = None
    for k in range(nw):
        p = sim.default_proc if same_proc else Proc(f"P{k}")
        sched = AsyncIOScheduler(timezone="UTC", identity=f"s{k}")
        on[0] = False
        if same_proc:
            shared = shared or (be.open(sched), sched)
            st, sched = shared
        else:
            st = be.open(sched)
        on[0] = True
        n = sim.rint("w", 2, 7)
        ths.append((sim.spawn(lambda k=k, st=st, sched=sched, n=n: worker(k, st, sched, n), name=f"w{k}", proc=p), p))
    if crash and kind != "file":
        sim.sleep(sim.pick("f", [0, 100, 1000, 3000]))
        for _ in range(sim.rint("f", 0, 40)):
            sim.point("w")
        sim.fault("crash")
        sim.crash(ths[0][1])
    if sim.chance("f", 15):
        # a record nobody can decode appears under an id nobody uses: readers drop it, nothing else happens
        n = "zz"
        if kind == "file":
            ino = fsmod.Inode(10_000, "f", w.wall())
            ino.data = bytearray(sim.pick("f", GARBAGE))
            w.fs.dir(f"{fsmod.ROOT}/a").entries["zz.task"] = ino
            sim.fault("undecodable_record")
        elif kind == "redis":
            w.redis.db(0).setdefault(b"t.a", {})[b"zz"] = sim.pick("f", GARBAGE)
            sim.fault("undecodable_record")
    for t, _ in ths:
        sim.join(t)
    on[0] = False
    sim.configure_preemption(0)
    st0.get_all_tasks()
    final = {t.id: fprint(t) for t in st0.get_all_tasks()}
    for i in ids:
        t = st0.lookup_task(i)
        if (None if t is None else fprint(t)) != final.get(i):
            w.fail("final", f"{kind}: at rest, lookup and listing disagree about {i}")
    if set(final) - set(ids):
        w.fail("invented", f"{kind}: tasks nobody added: {sorted(set(final) - set(ids))}")
    nxt = min((f[9] for f in final.values() if f[9] is not None), default=None)
    if nxt_us(st0.get_next_run_time()) != nxt:
        w.fail("next", f"{kind}: at rest the next run time is {st0.get_next_run_time()}, expected {w.rel(nxt)}")
    due = {t.id for t in st0.get_due_tasks(from_us(w.wall() + 20 * US))}
    want = {i for i, f in final.items() if f[9] is not None and f[9] <= w.wall() + 20 * US}
    if due != want:
        w.fail("due", f"{kind}: at rest the due query gives {sorted(due)}, expected {sorted(want)}")
    for i in ids:
        check_id(w, kind, i, [o for o in ops if o.tid in (None, i)], final.get(i),
                 BAD if i in spoiled else None)
    sim.probe("ops", len(ops))
    sim.probe("conflicts", sum(o.res == "conflict" for o in ops))
    w.close()
    return {"store": kind, "workers": nw, "ops": [repr(o) for o in ops][:30]}


BAD = "undecodable"


def step(o, st, tid):
    """The possible states after o, from st (a fingerprint, None or BAD)."""
    k, r = o.kind, o.res
    if st is BAD:
        # it counts as existing until a reader drops it, which can happen at any moment
        res = step(o, None, tid)
        if r in (None, "unknown"):
            return res + [BAD] + ([o.fp] if k == "update" else [])
        if k == "add":
            return res + [BAD] * (r == "conflict")
        if k == "update":
            return res + [o.fp] * (r == "ok")
        if k == "delete":
            return res + [None] * (r == "ok")
        if k == "lookup" and r == "undecodable":
            return [BAD]
        if k in ("lookup", "list", "due") and o.got.get(tid) is None:
            return res + [BAD]
        return res
    if r == "undecodable":
        return []
    if r in (None, "unknown"):
        # did or did not take effect
        if k == "add":
            return [st] if st is not None else [st, o.fp]
        if k == "update":
            return [st] if st is None else [st, o.fp]
        if k in ("delete", "clear"):
            return [st, None]
        return [st]
    if k == "add":
        if r == "conflict":
            return [st] if st is not None else []
        return [o.fp] if st is None else []
    if k == "update":
        if r == "missing":
            return [st] if st is None else []
        return [o.fp] if st is not None else []
    if k == "delete":
        if r == "missing":
            return [st] if st is None else []
        return [None] if st is not None else []
    if k == "clear":
        return [None]
    if k == "lookup" or k == "list":
        return [st] if o.got.get(tid) == st else []
    if k == "due":
        g = o.got.get(tid)
        if g is not None:
            return [st] if g == st else []
        return [st] if st is None or st[9] is None or st[9] > o.at else []
    raise AssertionError(k)


def check_id(w, kind, tid, ops, final, first=None):
    n = len(ops)
    before = []
    for o in ops:
        b = 0
        for j, p in enumerate(ops):
            if p.s1 is not None and p.s1 < o.s0:
                b |= 1 << j
        before.append(b)
    must = 0
    for j, o in enumerate(ops):
        if o.res not in (None, "unknown"):
            must |= 1 << j
    seen = set()
    stack = [(0, first)]
    best = (-1, None, 0)
    while stack:
        key = stack.pop()
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 200_000:
            w.sim.probe("explain_gave_up")
            return
        mask, st = key
        c = bin(mask & must).count("1")
        if c > best[0]:
            best = (c, st, mask)
        if mask & must == must and (st == final or st is BAD and final is None):
            return
        for i in range(n):
            # operations nobody saw the end of need not happen, so they hold nobody back
            if mask >> i & 1 or (before[i] & must) & ~mask:
                continue
            for s2 in step(ops[i], st, tid):
                stack.append((mask | 1 << i, s2))
    c, st, mask = best
    rest = [o for j, o in enumerate(ops) if not mask >> j & 1]
    w.fail("order", f"{kind} store, {tid}: no order of the calls explains their results; after {c} calls the state is "
                    f"{st and st is not BAD and st[1]}, then {rest[:5]} can not follow; at rest it is {final and final[1]}; "
                    f"all calls: {ops}")
