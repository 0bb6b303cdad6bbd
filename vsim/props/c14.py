"""C14 Encrypted stores never yield a forged, altered or foreign task."""
import base64
import os
import pickle

from ..kernel import US
from ..storetools import *  # noqa
from ..storetools import Backend, fprint, gen_next, gen_task, store_exc
from ..world import *  # noqa
from ..workload import *  # noqa
from asyncz.stores.persistence import TASK_STATE_ENTITY, TASK_STATE_ENVELOPE_VERSION, TaskStateEnvelope  # noqa
from asyncz.tasks import Task  # noqa

ID = "C14"
RUNS_QUICK = 3000
RUNS_THOROUGH = 250000
WALL_QUICK = 120
LEVEL = "exploration"
REAL = ["the four persistent stores with encryption, tasks, triggers, pickling, cryptography's AES-CCM",
        "schedulers and executors in the scheduler part", "redis-py client, SQLAlchemy + SQLite"]
STUB = ["redis server, mongo client+server (model), file system (model), clock, os.urandom (seeded per run)"]
ENV = "ASYNCZ_STORE_ENCRYPTION_KEY"
KEYS = ["k1", "correct horse battery staple" * 3, "schlüssel", " ", "0", "K1"]
SECRET = ["zqArgSecretValue", "zqKwSecretKey", "zqKwSecretValue", "zqNameSecret"]


class Trap:
    """Unpickling this is noticed."""

    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        return (sprung, (self.n,))


def sprung(n):
    w = taskfns.WORLD
    w.traps.append(n)
    return n


class Keyed:
    """Opens stores under a key."""

    def __init__(self, be):
        self.be = be

    def open(self, key, sched, alias="default"):
        old = os.environ.get(ENV)
        os.environ[ENV] = key
        try:
            return self.be.open(sched, alias)
        finally:
            if old is None:
                os.environ.pop(ENV, None)
            else:
                os.environ[ENV] = old


def run(sim):
    w = World(sim, ID)
    w.traps = []
    be = Backend(w, sim.pick("w", ["file", "redis", "mongo", "sql"]))
    key = sim.pick("w", KEYS)
    os.environ[ENV] = key
    try:
        if sim.chance("w", 35):
            return scheduled(sim, w, be, key)
        return direct(sim, w, be, key)
    finally:
        os.environ.pop(ENV, None)
        w.close()


def secret_task(sim, sched, tid, same=None):
    if same is not None:
        t = Task.__new__(Task)
        t.__setstate__(same.__getstate__())
        t.id = tid
        t.scheduler, t.store_alias = sched, "default"
        return t
    t = gen_task(sim, sched, tid, taskfns.WORLD.wall(), wide=False)
    t.update_task(fn=taskfns.plain, args=(SECRET[0], sim.fresh()), kwargs={SECRET[1]: [SECRET[2]]}, name=SECRET[3])
    return t


def variants(word):
    b = word.encode()
    out = [b, b[::-1], word.encode("utf-16le"), b.hex().encode(), b.swapcase()]
    for pad in range(3):       # every alignment inside base64 text
        e = base64.b64encode(b"\0" * pad + b)
        out.append(e[4:-4] if pad else e[:-4])
    return out


WORDS = [v for x in SECRET + ["taskfns", "vsim.taskfns"] for v in variants(x)]


def secrecy(w, be, planted):
    for where, data in be.everything():
        if data in planted:
            continue
        for v in WORDS:
            if v in data:
                w.fail("readable", f"{be.kind} store: {v!r} is readable in the stored bytes of {where}")


class Written:
    """Every distinct stored record of the run; two may not have anything in common."""

    def __init__(self, w, be):
        self.w, self.be = w, be
        self.blocks = {}
        self.known = {}
        self.n = 0

    def look(self, raw=None, skip=()):
        raw = self.be.raw() if raw is None else raw
        for tid, data in raw.items():
            if tid in skip or self.known.get(tid) == data:
                continue
            self.known[tid] = data
            self.n += 1
            own = set()
            for i in range(0, len(data) - 12, 4):
                # blocks of one record against all alignments of 4 of the earlier ones
                own.add(data[i:i + 12])
            for b in own:
                if b in self.blocks:
                    self.w.fail("repeated", f"{self.be.kind} store: two stored records share {b.hex()} "
                                            f"(of {tid!r} and {self.blocks[b]!r}): equal content is visible")
            for b in own:
                self.blocks[b] = tid


def damage(sim, data, others, forged, genuine):
    """genuine: every record seen that was written by the holder of the key (damaging twice may undo).

    Returns (what, bytes) of a record that was not written by the holder of the key as this record."""
    k = sim.pick("f", ["flip", "flip", "cut", "extend", "garbage", "empty", "plain", "swap_halves", "splice", "nonce",
                       "tail", "foreign"])
    b = bytearray(data)
    if k == "flip" or not b:
        i = sim.draw("f", max(1, len(b)))
        if b:
            b[i] ^= 1 << sim.draw("f", 8)
        else:
            b = bytearray(b"x")
    elif k == "cut":
        del b[sim.pick("f", [len(b) - 1, 13, 12, 1, len(b) // 2, 29, 28]):]
    elif k == "extend":
        b += bytes(sim.pick("f", [1, 16]))
    elif k == "garbage":
        b = bytearray(os.urandom(len(b)))
    elif k == "empty":
        b = bytearray()
    elif k == "plain":
        b = bytearray(forged())
    elif k == "swap_halves":
        h = len(b) // 2
        b = b[h:] + b[:h]
    elif k == "splice":
        o = others[sim.draw("f", len(others))] if others else data[::-1]
        h = len(b) // 2
        b = b[:h] + bytearray(o)[h:]
    elif k == "nonce":
        b[:13] = os.urandom(13)
    elif k == "tail":
        b[-16:] = bytes(16)
    elif k == "foreign":
        return k, None
    if bytes(b) == data or bytes(b) in others or bytes(b) in genuine:
        b = bytearray(b"\0" + data)
    return k, bytes(b)


def direct(sim, w, be, key):
    """Calls of one store object, with reopening, other keys and damage in between."""
    sched = AsyncIOScheduler(timezone="UTC", identity="s")
    K = Keyed(be)
    st = K.open(key, sched)
    wr = Written(w, be)
    ids = [f"t{i}" for i in range(sim.pick("w", [2, 3, 5]))]
    model = {}
    objs = {}
    genuine = set()
    spoiled = {}          # id -> what happened to the record
    other = KEYS[(KEYS.index(key) + 1 + sim.draw("w", len(KEYS) - 1)) % len(KEYS)]
    alt = K.open(other, sched)
    trace = []
    ndam = 0
    planted = set()

    def tr(*a):
        trace.append(a)
        sim.note(be.kind, *a)

    def bad(kind, msg):
        w.fail(kind, f"{be.kind} store under {key!r}: {msg}; so far: {trace[-8:]}")

    def good(ts, how, want):
        got = {}
        for t in ts:
            if t.id in spoiled or (t.id not in model and t.id not in want):
                bad("forged", f"{how} made a task of the record {t.id!r} which is {spoiled.get(t.id, 'unknown')}: {t!r}")
            if fprint(t) != model[t.id]:
                bad("field", f"{how}: {t.id!r} differs from what was stored: {fprint(t)} / {model[t.id]}")
            got[t.id] = 1
        miss = [i for i in want if i not in got]
        if miss:
            bad("affected", f"{how} does not show {miss}")

    def forged():
        t = secret_task(sim, sched, "t0")
        state = st.serialize_task_state(t)
        return pickle.dumps(sim.pick("f", [state, t.__getstate__(), Trap(sim.fresh()), (state, Trap(1))]))

    for _ in range(sim.rint("w", 5, 40)):
        now = w.wall()
        op = sim.wpick("w", [(6, "add"), (4, "update"), (2, "delete"), (3, "lookup"), (3, "list"), (2, "due"), (1, "next"),
                             (2, "reopen"), (3, "damage"), (1, "forge"), (1, "clear")])
        tid = sim.pick("w", ids)
        if op == "add":
            t = secret_task(sim, sched, tid, sim.pick("w", sorted(objs.items()))[1] if objs and sim.chance("w", 40)
                            else None)
            tr("add", tid)
            try:
                st.add_task(t)
            except ConflictIdError:
                if tid not in model and tid not in spoiled:
                    bad("conflict", f"adding {tid!r} reported a conflict")
            else:
                if tid in model:
                    bad("no_conflict", f"adding the existing {tid!r} was accepted")
                spoiled.pop(tid, None)
                model[tid] = fprint(t)
                objs[tid] = t
        elif op == "update":
            tr("update", tid)
            t = secret_task(sim, sched, tid, objs.get(tid) if sim.chance("w", 50) else None)
            if sim.chance("w", 50):
                t.next_run_time = gen_next(sim, now, wide=False)
            try:
                st.update_task(t)
            except TaskLookupError:
                if tid in model:
                    bad("lookup_error", f"updating {tid!r} reported it missing")
            else:
                if tid not in model and tid not in spoiled:
                    bad("created", f"updating the missing {tid!r} was accepted")
                spoiled.pop(tid, None)
                model[tid] = fprint(t)
                objs[tid] = t
        elif op == "delete":
            tr("delete", tid)
            try:
                st.delete_task(tid)
            except TaskLookupError:
                if tid in model:
                    bad("lookup_error", f"deleting {tid!r} reported it missing")
            spoiled.pop(tid, None)
            model.pop(tid, None)
            objs.pop(tid, None)
        elif op == "lookup":
            tr("lookup", tid)
            if tid in spoiled:
                try:
                    t = st.lookup_task(tid)
                except Exception as e:       # reported as unusable
                    tr("refused", type(e).__name__)
                    t = None
                if t is not None:
                    bad("forged", f"lookup made a task of the record {tid!r} which is {spoiled[tid]}: {t!r}")
            else:
                t = st.lookup_task(tid)
                good([] if t is None else [t], f"lookup({tid!r})", [tid] if tid in model else [])
        elif op == "list":
            tr("list")
            good(st.get_all_tasks(), "the listing", list(model))
            if any(i in st_raw for st_raw in [be.raw()] for i in spoiled):
                tr("kept")
        elif op == "due":
            tr("due")
            want = [i for i, m in model.items() if m[9] is not None and m[9] <= now]
            good(st.get_due_tasks(from_us(now)), "due", want)
        elif op == "next":
            tr("next")
            st.get_next_run_time()
        elif op == "reopen":
            tr("reopen")
            if sim.chance("w", 50):
                st.shutdown()
            st = K.open(key, sched)
        elif op == "damage":
            raw = be.raw()
            if tid not in raw:
                continue
            wr.look(raw, spoiled)
            genuine.update(v for k, v in raw.items() if k not in spoiled)
            what, data = damage(sim, raw[tid], [v for k, v in sorted(raw.items()) if k != tid and k not in spoiled],
                                forged, genuine)
            ndam += 1
            sim.fault(f"record_{what}")
            tr("damage", tid, what)
            if data is None:
                alt.update_task(secret_task(sim, sched, tid, objs.get(tid)))
            else:
                be.put_raw(tid, data)
                planted.add(data)
            spoiled[tid] = what
            model.pop(tid, None)
            objs.pop(tid, None)
        elif op == "forge":
            src = [i for i in ids if i in model]
            if not src:
                continue
            sim.fault("record_forged")
            n = f"f{sim.fresh()}"
            tr("forge", n)
            if sim.chance("f", 40):
                alt.add_task(secret_task(sim, sched, n, objs.get(src[0])))
            else:
                data = forged() if sim.chance("f", 60) else os.urandom(200)
                be.forge(n, data, src[0])
                planted.add(data)
            spoiled[n] = "forged"
            ids.append(n)
        else:
            if not sim.chance("w", 20):
                continue
            tr("clear")
            st.remove_all_tasks()
            model.clear()
            objs.clear()
            spoiled.clear()
        if w.traps:
            bad("executed", "a forged record was unpickled")
        wr.look(None, spoiled)
    secrecy(w, be, planted)
    st = K.open(key, sched)
    tr("reopened")
    good(st.get_all_tasks(), "the listing after reopening", list(model))
    good(st.get_due_tasks(from_us(w.wall() + 10 ** 15)), "due after reopening",
         [i for i, m in model.items() if m[9] is not None])
    for i in sorted(model):
        good([t for t in [st.lookup_task(i)] if t], f"lookup({i!r}) after reopening", [i])
    # nothing can be made of the records without the right key
    last = K.open(other, sched)
    ts = [t for t in last.get_all_tasks() if t.id in model]
    if ts:
        bad("other_key", f"opened under another key the store shows {ts}")
    if w.traps:
        bad("executed", "a forged record was unpickled")
    sim.probe("records", wr.n)
    sim.probe("damaged", ndam)
    return {"store": be.kind, "key": key, "calls": [repr(t) for t in trace][-30:], "records": wr.n}


def scheduled(sim, w, be, key):
    """Records are altered below a running scheduler."""
    K = Keyed(be)
    ek = sim.wpick("w", [(3, "asyncio"), (2, "thread"), (1, "debug")])

    def host(name):
        return Host(w, sim.wpick("w", MODES), name=name, stores={"default": w.make_store(be.kind, where=be.where)},
                    executors={"default": w.make_executor(ek)}, store_retry_interval=2)
    h = host("s")
    specs = []
    for i in range(sim.pick("w", [2, 3, 4])):
        sp = gen_spec(sim, i, w.wall(), {"default": ek}, ["default"], kinds=("interval", "cron"))
        sp.add(h.sched, w.wall)
        specs.append(sp)
    style_for_run(sim, calm=30)
    h.start()
    for sp in specs:
        sp.t_hi = w.wall()
    scratch = AsyncIOScheduler(timezone="UTC", identity="x")
    other = KEYS[(KEYS.index(key) + 1) % len(KEYS)]
    hurt = {}       # id -> (bytes, seq)
    touched = set()
    genuine = set()

    def forged():
        t = Task(id="t0", fn=taskfns.job, args=["forged"], trigger=IntervalTrigger(seconds=1), scheduler=scratch,
                 executor="default", store_alias="default", next_run_time=from_us(w.wall()))
        env = TaskStateEnvelope(entity=TASK_STATE_ENTITY, version=TASK_STATE_ENVELOPE_VERSION, shape=h.sched.shape.name,
                                payload=t.__getstate__())
        return pickle.dumps(sim.pick("f", [env, t.__getstate__(), Trap(1)]))

    def check(alias, tid):
        """Asked at every hand-over."""
        if tid in hurt:
            data, seq = hurt[tid]
            begun = [d[0] for d in w.due_log if d[1] == "default"]
            if begun and begun[-1] > seq and be.raw().get(tid) == data:
                w.fail("submitted", f"{be.kind} store: {tid!r} was submitted although its record is altered")
        return False
    w.exec_fault = check
    for _ in range(sim.rint("w", 1, 5)):
        sim.sleep(sim.pick("w", [500_000, 1 * US, 1 * US - 1, 2 * US, 3 * US]))
        raw = be.raw()
        ids = sorted(raw)
        if not ids:
            continue
        tid = sim.pick("w", ids)
        if sim.chance("f", 30):
            new = f"f{sim.fresh()}"
            data = forged()
            be.forge(new, data, tid)
            hurt[new] = (data, w.seq())
            touched.add(new)
            sim.fault("record_forged")
            continue
        genuine.update(v for k, v in raw.items() if k not in touched)
        what, data = damage(sim, raw[tid], [v for k, v in sorted(raw.items()) if k != tid], forged, genuine)
        if data is None:
            # the same task, as the holder of another key would write it
            st = K.open(other, scratch)
            t = Task(id=tid, fn=taskfns.job, args=["forged"], trigger=IntervalTrigger(seconds=1), scheduler=scratch,
                     executor="default", store_alias="default", next_run_time=from_us(w.wall()))
            data = st.conditional_encrypt(pickle.dumps(st.serialize_task_state(t)))
        be.put_raw(tid, data)
        hurt[tid] = (data, w.seq())
        touched.add(tid)
        sim.fault(f"record_{what}")
    sim.sleep(sim.pick("w", [1 * US, 4 * US]))
    late = 2 * sim.stall_max_us if sim.style and sim.stalls else 0
    calm_down(sim)
    sim.sleep(6 * US + late)
    t_end = w.wall() - late
    h.sched.pause()
    sim.sleep(300_000)
    if w.traps:
        w.fail("executed", f"{be.kind} store: a forged record was unpickled")
    for c in w.calls:
        if c.tag == "forged":
            w.fail("called", f"{be.kind} store: a forged task was called")
    for t in h.sched.get_tasks():
        if t.id in hurt and be.raw().get(t.id) == hurt[t.id][0]:
            w.fail("forged", f"{be.kind} store: the altered record {t.id!r} is shown as {t!r}")
        if t.id.startswith("f"):
            w.fail("forged", f"{be.kind} store: the forged record is shown as {t!r}")
    for sp in specs:
        if sp.id not in touched:
            check_schedule(w, sp, t_end, stored_next(h.sched, sp))
    secret = [v for x in ("taskfns", "vsim.taskfns") for v in variants(x)]
    for where, data in be.everything():
        if any(data == d for d, _ in hurt.values()):
            continue
        for v in secret:
            if v in data:
                w.fail("readable", f"{be.kind} store: {v!r} is readable in the stored bytes of {where}")
    h.shutdown(wait=False)
    h.stop_app()
    sim.probe("records", len(touched))
    return {"store": be.kind, "executor": ek, "touched": sorted(touched), "handovers": len(w.subs)}
