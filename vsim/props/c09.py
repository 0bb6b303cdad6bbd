"""C09 A crash or I/O error never corrupts or loses a file-stored task."""
from ..kernel import US, Proc, SimKilled
from ..world import *  # noqa
from ..storetools import *  # noqa
from ..storetools import Backend, fprint, gen_next, gen_task, nxt_us
from .. import fs as fsmod

ID = "C09"
RUNS_QUICK = 6000
RUNS_THOROUGH = 300000
WALL_QUICK = 120
LEVEL = "exploration"
REAL = ["FileStore, file_locking, tasks, triggers, pickling, persistence envelopes, Python io buffering and pathlib"]
STUB = ["file system below the system-call level (inodes, descriptors, flock, short and torn writes, crash keeps what was written)",
        "processes (groups of simulated threads that die together)", "clock"]
GARBAGE = [b"", b"\0" * 40, b"not a pickle", b"\x80\x05K\x01.", b"\x80\x05\x95\xff\xff\xff\xff\xff\xff\xff\x7f."]


def run(sim):
    w = World(sim, ID)
    be = Backend(w, "file")
    root = f"{fsmod.ROOT}/a"
    nproc = sim.pick("w", [1, 1, 2])
    own = [[f"p{k}t{i}" for i in range(sim.rint("w", 1, 4))] for k in range(nproc)]
    # id -> set of fingerprints (None = absent) the durable state may have
    may = {i: {None} for ids in own for i in ids}
    gen_fault = sim.chance("w", 50)
    gen_crash = sim.chance("w", 75)
    style = sim.pick("w", [0, 1, 1]) if nproc > 1 else 0
    sim.configure_preemption(style, 0, 10, stalls=bool(style))
    log = []

    def bad(kind, msg):
        w.fail(kind, f"{msg}; last calls: {log[-8:]}")

    fault_on = [False]

    def fault():
        return "f" if fault_on[0] and sim.chance("f", 8) else None
    if gen_fault:
        be.set_fault(fault)
    crash_at = [None]

    def crash(op, path):
        if crash_at[0] is None or sim.cur.proc is sim.default_proc:
            return False
        crash_at[0] -= 1
        if crash_at[0] < 0:
            crash_at[0] = None
            return True
        return False
    w.fs.crash_plan = crash

    def worker(k, sched, n):
        fault_on[0] = True
        try:
            st = be.open(sched)
        except OSError:
            if not gen_fault:
                raise
            log.append(("open failed",))
            return
        for _ in range(n):
            sim.sleep(sim.pick("w", [0, 1000, 300_000]))
            now = w.wall()
            tid = sim.pick("w", own[k])
            op = sim.wpick("w", [(5, "add"), (5, "update"), (2, "delete"), (2, "lookup"), (1, "list"), (1, "due"), (1, "next")])
            before = set(may[tid])
            if len(before) > 1:
                # not known: look first (a failing look tells nothing)
                try:
                    t = st.lookup_task(tid)
                except OSError:
                    continue
                got = None if t is None else fprint(t)
                if got not in before:
                    bad("lost", f"{tid}: found {short(got)} but only {[short(x) for x in before]} can be stored")
                may[tid] = before = {got}
            old = next(iter(before))
            new = old
            try:
                if op in ("add", "update"):
                    t = gen_task(sim, sched, tid, now, simple=True)
                    fp = fprint(t)
                    log.append((op, tid, fp[1]))
                    if (old is None) == (op == "add"):
                        may[tid] = {old, fp}
                        (st.add_task if op == "add" else st.update_task)(t)
                        may[tid] = {fp}
                    else:
                        try:
                            (st.add_task if op == "add" else st.update_task)(t)
                        except (ConflictIdError, TaskLookupError) as e:
                            if isinstance(e, ConflictIdError) != (op == "add"):
                                bad("error", f"{op} of {tid} raised {type(e).__name__}")
                        else:
                            bad("accepted", f"{op} of {tid} was accepted")
                elif op == "delete":
                    log.append((op, tid))
                    if old is not None:
                        may[tid] = {old, None}
                        st.delete_task(tid)
                        may[tid] = {None}
                    else:
                        try:
                            st.delete_task(tid)
                        except TaskLookupError:
                            pass
                        else:
                            bad("accepted", f"delete of the missing {tid} was accepted")
                elif op == "lookup":
                    log.append((op, tid))
                    t = st.lookup_task(tid)
                    if (None if t is None else fprint(t)) != old:
                        bad("lookup", f"lookup of {tid} gave {t}, stored is {short(old)}")
                elif op == "list":
                    log.append((op,))
                    mine = {t.id: fprint(t) for t in st.get_all_tasks() if t.id in own[k]}
                    for i in own[k]:
                        if mine.get(i) not in may[i]:
                            bad("listing", f"the listing shows {i} as {short(mine.get(i))}, stored is {[short(x) for x in may[i]]}")
                elif op == "due":
                    log.append((op,))
                    ids = {t.id for t in st.get_due_tasks(from_us(now))}
                    for i in own[k]:
                        if len(may[i]) == 1:
                            f = next(iter(may[i]))
                            if (f is not None and f[9] is not None and f[9] <= now) != (i in ids):
                                bad("due", f"the due query gave {sorted(ids)}, {i} is stored as {short(f)}")
                else:
                    st.get_next_run_time()
            except (ConflictIdError, TaskLookupError) as e:
                bad("error", f"{op} of {tid} (stored: {short(old)}) raised {type(e).__name__}")
            except OSError as e:
                if not gen_fault:
                    raise
                log.append(("failed", type(e).__name__, e.errno))
            except SimKilled:
                log.append(("crashed",))
                raise
        if sim.chance("w", 20):
            st.shutdown()

    damaged = 0
    for gen in range(sim.rint("w", 1, 4)):
        ths = []
        crash_at[0] = sim.rint("f", 0, 60) if gen_crash and sim.chance("f", 80) else None
        if crash_at[0] is not None:
            sim.probe("crash_armed")
        for k in range(nproc):
            p = Proc(f"P{gen}.{k}")
            sched = AsyncIOScheduler(timezone="UTC", identity=f"s{k}")
            n = sim.rint("w", 2, 14)
            ths.append(sim.spawn(lambda k=k, sched=sched, n=n: worker(k, sched, n), name=f"w{k}", proc=p))
        if sim.chance("f", 25):
            sim.sleep(sim.pick("f", [0, 500_000]))
            d = w.fs.dir(root)
            if d is not None:
                damaged += 1
                nm = f"bad{damaged}"
                w.fs.nino += 1
                ino = fsmod.Inode(w.fs.nino, "f", w.wall())
                ino.data = bytearray(sim.pick("f", GARBAGE))
                d.entries[f"{nm}.task"] = ino
                sim.fault("undecodable_record")
        for t in ths:
            sim.join(t)
        crash_at[0] = None
        fault_on[0] = False
        # ---------------- restart: an undisturbed process reads what survived
        sched = AsyncIOScheduler(timezone="UTC", identity="r")
        st = be.open(sched)
        got = {t.id: fprint(t) for t in st.get_all_tasks()}
        for i, fps in may.items():
            if got.get(i) not in fps:
                bad("lost", f"after the restart {i} is {short(got.get(i))} but only {[short(x) for x in fps]} can be stored")
            t = st.lookup_task(i)
            if (None if t is None else fprint(t)) != got.get(i):
                bad("lookup", f"after the restart lookup and listing disagree about {i}")
            may[i] = {got.get(i)}
        extra = set(got) - set(may)
        if extra:
            bad("invented", f"after the restart there are tasks nobody stored: {sorted(extra)}")
        left = [n for n in w.fs.dir(root).entries if n.startswith("bad")]
        if left:
            bad("undecodable", f"undecodable records were not dropped: {left}")
        # everything still works
        for i in may:
            t = gen_task(sim, sched, i, w.wall(), simple=True)
            if got.get(i) is None:
                if sim.chance("w", 50):
                    continue
                st.add_task(t)
            else:
                if sim.chance("w", 50):
                    continue
                st.update_task(t)
            may[i] = {fprint(t)}
    sim.probe("generations", gen + 1)
    w.close()
    return {"procs": nproc, "faults": gen_fault, "crashes": gen_crash, "calls": [repr(x) for x in log][-20:]}


def short(fp):
    return None if fp is None else (fp[1], fp[9])
