"""C17 Remote control equals local control, and transport faults are reported as such."""
import datetime as dtm
import json

from asyncz.contrib.dashboard import remote as R
from asyncz.enums import TaskScheduleState
from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, RemoteSchedulerError, create_remote_scheduler_app

from .. import httpsim
from ..kernel import US
from ..seqspec import Ops, attach_runs, check_task
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL as R0, STUB as S0
from .c05 import new_trigger

httpsim.install()

ID = "C17"
RUNS_QUICK = 3500
RUNS_THOROUGH = 200000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = R0 + ["asyncz.contrib.dashboard.remote client and server application", "urllib.request, http.client, lilya routing and requests"]
STUB = S0 + ["the TCP connection between client and server, and the server's HTTP parser (vsim.httpsim)"]

UNDELIVERED = ["refused", "reset", "lost", "html", "html_ok", "garbage", "binary", "empty", "empty_error", "list", "list_error",
               "nodata", "wrong", "text_data", "null_error", "other_error", "badstatus", "nothing", "redirect"]
DELIVERED = ["late", "no_answer", "slow", "closed", "broken", "short", "stall", "cut", "eaten_html", "eaten_garbage",
             "eaten_empty", "eaten_nothing", "eaten_badstatus", "eaten_list"]
NAMES = {"TaskLookupError": TaskLookupError, "MaximumInstancesError": MaximumInstancesError, "ValueError": ValueError,
         "SchedulerNotRunningError": SchedulerNotRunningError, "ConflictIdError": ConflictIdError}


def snap(x):
    """A result in a form that can be compared."""
    if hasattr(x, "snapshot"):
        x = x.snapshot()
    if hasattr(x, "model_dump"):
        return norm(x.model_dump())
    return norm(x)


def norm(x):
    if isinstance(x, dict):
        if x.get("id") == "odd":
            # has arguments which JSON cannot express
            x = {k: v for k, v in x.items() if k not in ("args", "kwargs")}
        return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [snap(v) if hasattr(v, "model_dump") else norm(v) for v in x]
    if isinstance(x, dtm.datetime):
        return ("at", to_us(x))
    if hasattr(x, "value") and hasattr(x, "name"):
        return x.value
    if hasattr(x, "model_dump"):
        return snap(x)
    return x


def run(sim):
    w = World(sim, ID)
    if sim.chance("w", 45):
        return run_twin(sim, w)
    aliases = ["default", "b"][:sim.pick("w", [1, 2])]
    kinds = {a: sim.wpick("w", STORES) for a in aliases}
    ek = {"default": sim.wpick("w", EXECS)}
    inline = ek["default"] == "debug"
    h = Host(w, sim.wpick("w", MODES), stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
             executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {}))
                        for a, k in ek.items()}, store_retry_interval=2)
    s = h.sched
    w.default_plan = Plan((0, 20_000) if inline else sim.pick("w", [(0, 300_000), (0, 2_500_000)]))
    ops = Ops(w)
    token = sim.pick("w", [None, "s3cret", "s3cret"])
    app = create_remote_scheduler_app(s, token=token)
    net = w.net = httpsim.Net(sim, app, w, on_loop=h.in_loop if h.mode != "thread" and sim.chance("w", 40) else None)
    net.delay = sim.pick("w", [(0,), (0, 1000, 50_000), (0, 400_000, 2 * US)])
    home = {f"t{i}": sim.pick("w", aliases) for i in range(sim.pick("w", [1, 2, 3]))}
    if sim.chance("w", 20):
        home["a b/ü?#%41" if kinds[aliases[0]] != "file" else "a b-ü?#%41"] = aliases[0]
    ids = sorted(home)
    armed = {}      # client thread -> fault for its next request
    p_fault = sim.pick("w", [0, 25, 60])
    pending = []
    sfaults = []

    def plan(method, target):
        f = armed.get(sim.cur.name)
        if method is None:
            return f if f == "refused" else None
        return armed.pop(sim.cur.name, None)
    net.plan = plan

    def store_fault(alias, op, tid):
        for f in sfaults:
            if sim.cur.name.startswith("http#") and f == op:
                sfaults.remove(f)
                return "before"
        return None
    if net.on_loop is None and not inline:
        w.store_fault = store_fault

    def client(k):
        c = RemoteSchedulerClient("http://worker:8000/" if sim.chance("w", 50) else "http://worker:8000", token=token)
        bad = RemoteSchedulerClient("http://worker:8000", token=sim.pick("w", [None, "wrong", "", "S3CRET"]))
        me = sim.cur.name
        for _ in range(sim.rint("w", 3, 8)):
            sim.sleep(sim.pick("w", [1, 200_000, 700_000, 1 * US, 50_000]))
            if token is not None and sim.chance("w", 15):
                intruder(bad)
                continue
            tid = sim.pick("w", ids)
            call(c, me, tid)

    def intruder(c):
        tid = sim.pick("w", ids)
        n = len(net.reqs)
        f = sim.pick("w", [lambda: c.pause_task(tid), lambda: c.run_task(tid), lambda: c.delete_task(tid), lambda: c.get_task_infos(),
                           lambda: c.update_task(tid, name="evil"), lambda: c.get_scheduler_info(), lambda: c.resume_task(tid),
                           lambda: c.add_task("vsim.taskfns:job", "interval", seconds=1, args=["evil"], id="evil"),
                           lambda: c.get_task(tid), lambda: c.preview_task_runs(tid), lambda: c.get_scheduler_instance_infos()])
        try:
            f()
        except RemoteSchedulerError:
            pass
        except Exception as e:
            w.fail("error", f"a call with a wrong token raised {e!r}")
        else:
            w.fail("token", "a call with a wrong token was answered")
        q = net.by_thread[sim.cur.name][-1]
        if q.done and (q.status != 401 or b"t0" in q.answer):
            w.fail("token", f"a call with a wrong token was answered {q.status} {q.answer!r}")
        del n
        sim.probe("intruder")

    def call(c, me, tid):
        a = sim.wpick("w", [(3, "pause"), (3, "resume"), (3, "add"), (1, "delete"), (3, "update"), (3, "run"), (2, "get"), (2, "list"),
                            (1, "info"), (1, "preview"), (1, "running")])
        st = home[tid]
        via = sim.pick("w", [st, None])
        kw = {"store": st}
        if a == "pause":
            fn = lambda: c.pause_task(tid, via)  # noqa
        elif a == "resume":
            fn = lambda: c.resume_task(tid, via)  # noqa
        elif a == "delete":
            fn = lambda: c.delete_task(tid, via)  # noqa
        elif a == "run":
            kw["remove"], kw["force"] = bool(sim.pick("w", [1, 0])), bool(sim.pick("w", [1, 1, 0]))
            fn = lambda: c.run_task(tid, via, force=kw["force"], remove_finished=kw["remove"])  # noqa
        elif a == "update":
            v = f"n{sim.fresh()}"
            up = sim.pick("w", ["val", "co", "next", "both"])
            args = {}
            if up in ("val", "both"):
                kw["val"] = args["name"] = v
            if up in ("co", "both"):
                kw["co"] = args["coalesce"] = bool(sim.pick("w", [0, 1]))
            if up == "next":
                x = w.wall() + sim.pick("w", [1 * US, 500_000, 3 * US, -1 * US])
                kw["next"] = x
                args["next_run_time"] = from_us(x)
            fn = lambda: c.update_task(tid, via, **args)  # noqa
        elif a == "add":
            t, r = new_trigger(sim, w.wall())
            kw.update(ref=ops.ref(r), co=bool(sim.pick("w", [0, 1])), val=f"n{sim.fresh()}", replace=sim.chance("w", 30))
            m = {}
            if sim.chance("w", 20):
                m["next_run_time"], kw["next"] = None, None
            f = sim.pick("w", [taskfns.job, "vsim.taskfns:job"])
            fn = lambda: c.add_task(f, t, args=[tid], id=tid, name=kw["val"], coalesce=kw["co"], mistrigger_grace_time=None,  # noqa
                                    store=st, max_instances=sim.pick("w", [50, 1]), replace_existing=kw["replace"], **m)
        elif a == "get":
            fn = lambda: c.get_task_info(tid, st)  # noqa
        elif a == "list":
            fn = c.get_task_infos
        elif a == "info":
            fn = sim.pick("w", [c.get_scheduler_info, c.get_scheduler_instance_infos])
        elif a == "preview":
            fn = lambda: c.preview_task_runs(tid, st, count=3)  # noqa
        else:
            fn = lambda: c.running  # noqa
        fault = None
        if sim.chance("w", p_fault):
            fault = sim.pick("w", UNDELIVERED if sim.chance("w", 50) else DELIVERED)
            if a == "delete" and fault in ("wrong", "text_data"):
                fault = "garbage"
            if fault == "cut" and a in ("get", "list", "info", "preview", "running", "delete"):
                fault = "closed"
            armed[me] = fault
        elif kinds[st] != "memory" and sim.chance("w", 10):
            sfaults.append({"pause": "update_task", "update": "update_task", "delete": "delete_task", "add": "add_task",
                            "list": "get_all_tasks", "info": "get_all_tasks"}.get(a, "lookup_task"))
        n0 = len(net.by_thread.get(me, ()))
        t0 = w.wall()
        raised = [None]

        def go():
            try:
                return fn()
            except Exception as e:
                raised[0] = e
        o = ops.call(a, tid, go, **kw)
        armed.pop(me, None)
        sfaults.clear()
        qs = [q for q in net.by_thread.get(me, ())[n0:] if q.fault != "followed"]
        if fault == "redirect" and len(qs) == 2 and qs[0].method == "GET":
            qs[1].fault = "followed"
            qs = qs[:1]
        if len(qs) != 1:
            w.fail("requests", f"one {a} made {len(qs)} requests: {[(q.method, q.target) for q in qs]}")
        q = qs[0]
        e = raised[0]
        answered = q.done and fault in (None, "cut")
        if fault == "slow" and not isinstance(e, RemoteSchedulerError) and w.wall() - t0 >= 11 * US:
            # the client was stalled until the answer was there
            answered, fault = True, None
        if fault is None and w.wall() - t0 >= 10 * US and isinstance(e, RemoteSchedulerError) and "timed out" in str(e):
            # the worker was busy for longer than the client waits
            answered, fault = False, "busy"
        sim.probe(f"{a}_{fault or 'ok'}")
        if not answered:
            if not isinstance(e, RemoteSchedulerError):
                w.fail("transport", f"{a} met the transport fault {fault} and ended with {e!r} (result {o.res!r}), "
                                    f"not with a RemoteSchedulerError")
            if w.wall() - t0 > 60 * US:
                w.fail("transport", f"{a} with {fault} returned after {(w.wall() - t0) / US} s")
        elif fault == "cut":
            if not isinstance(e, Exception):
                w.fail("cut", f"a {a} request which arrived without its end was carried out: {o.res!r}")
        else:
            check_answer(a, tid, o, q, e)
        if fault not in UNDELIVERED:
            pending.append((o, q, a, fault))
        else:
            ops.ops.remove(o)

    def check_answer(a, tid, o, q, e):
        """The client's result is what the server answered."""
        if q.status >= 400:
            try:
                p = json.loads(q.answer)
            except ValueError:
                if not isinstance(e, RemoteSchedulerError):
                    w.fail("error", f"{a} was answered {q.status} {q.answer[:80]!r} and raised {e!r}")
                return
            name = p.get("error")
            if a in ("get", "preview") and name == "TaskLookupError":
                if e is not None or o.res is not None:
                    w.fail("error", f"{a} of a missing task gave {e!r} {o.res!r}")
                return
            want = NAMES.get(name, RemoteSchedulerError)
            if type(e) is not want:
                w.fail("error", f"{a} was answered {name} and raised {e!r}")
            return
        if e is not None:
            w.fail("error", f"{a} was answered {q.status} {q.answer[:100]!r} and raised {e!r} {e}")
        data = json.loads(q.answer)["data"]
        if a in ("pause", "update", "add", "get") and (data["id"], data["name"]) != (o.res.id, o.res.name) or \
                a in ("resume", "run") and (data is None) != (o.res is None) or \
                a == "list" and [x["id"] for x in data] != [x.id for x in o.res] or a == "delete" and o.res is not None or \
                a == "running" and o.res is not data["running"]:
            w.fail("result", f"{a} was answered {data} and returned {o.res!r}")

    style_for_run(sim, calm=35)
    h.start()
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 2, 2, 3]))]
    for t in ths:
        sim.join(t)
    sim.sleep(14 * US)
    for t in net.threads:
        sim.join(t)
    t_end = quiesce(w, h, 1)
    h.sched.pause()
    sim.sleep(400_000)
    for o, q, a, fault in pending:
        # what the server answered is what happened
        if not q.done:
            ops.ops.remove(o)
            continue
        o.s1, o.t1, o.thread = max(o.s1, q.s1), max(o.t1, q.t1), q.thread
        if q.s1 < o.s1:
            o.s1, o.t1 = q.s1, q.t1
        o.s0, o.t0 = q.c0, q.tc0      # nothing happens before it reaches the application
        if not q.intact and q.status < 400 and a not in ("get", "list", "info", "preview", "running"):
            w.fail("cut", f"{o}: a request which arrived without its end was carried out: {q.status} {q.answer!r}")
        try:
            p = json.loads(q.answer)
        except ValueError:
            p = {"error": "other"}
        if q.status >= 400:
            o.res, o.exc = None, p["error"]
            if a == "get" and o.exc == "TaskLookupError":
                o.exc = None
            elif o.exc not in ("TaskLookupError", "ConflictIdError", "MaximumInstancesError") or o.kind not in (
                    "add", "pause", "resume", "run", "update", "delete"):
                ops.ops.remove(o)
                continue
        else:
            o.exc, o.res = None, p["data"]
            if o.kind == "get" and o.res is not None:
                o.res = (q_us(o.res["next_run_time"]), o.res["name"])
        if o.kind in ("list", "info", "preview", "running"):
            ops.ops.remove(o)
            if o.kind == "list" and o.exc is None:
                seen = {x["id"]: x for x in o.res}
                for tid in ids:
                    x = seen.get(tid)
                    ops.also(o, "get", tid, None if x is None else (q_us(x["next_run_time"]), x["name"])).store = home[tid]
    attach_runs(w, ops.ops)
    for tid in ids:
        t = s.get_task(tid, home[tid])
        final = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and x.result in ("ok", "max")]
        check_task(w, ops.refs, tid, home[tid], my, atts, final, t_end)
    extra = {t.id for t in s.get_tasks()} - set(home)
    if extra:
        w.fail("extra", f"tasks nobody asked for: {sorted(extra)}")
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"mode": "faults", "stores": kinds, "requests": len(net.reqs), "ops": [repr(o) for o in ops.ops]}


def q_us(x):
    return None if x is None else to_us(dtm.datetime.fromisoformat(x))


def run_twin(sim, w):
    """The same calls on two schedulers, on one of them remotely."""
    kinds = {a: sim.wpick("w", STORES) for a in ["default", "b"][:sim.pick("w", [1, 2])]}
    ek = sim.pick("w", ["thread", "asyncio"])
    mode = sim.wpick("w", MODES)
    hs = []
    for k in ("one", "two"):
        hs.append(Host(w, mode, name=k, identity="same",
                       stores={a: w.make_store(x, where=f"{k}{a}") for a, x in kinds.items()},
                       executors={a: w.make_executor(ek) for a in ("default", "x")}))
    a, b = hs
    w.default_plan = Plan((4_700_013,))
    net = w.net = httpsim.Net(sim, create_remote_scheduler_app(b.sched, token="tök" if sim.chance("w", 10) else "tok"), w)
    c = RemoteSchedulerClient("http://worker", token="tok")
    if sim.chance("w", 10):
        net.app = create_remote_scheduler_app(b.sched)
        c = RemoteSchedulerClient("http://worker", token=sim.pick("w", [None, "any"]))
    else:
        net.app = create_remote_scheduler_app(b.sched, token="tok")
    sim.configure_preemption(0)
    started = sim.chance("w", 90)
    names = ["t1", "t2", "a b/ü?#%41", "x.y:z", "100%", "..", "preview", "a/preview", "a+b&c=d", "ghost"]
    stores = sorted(kinds) + [None, None, None, "nope"]
    if started:
        for h in hs:
            h.start()
    if sim.chance("w", 15):
        names.append("odd")
        for h in hs:
            h.sched.add_task(taskfns.plain, "interval", hours=1, id="odd", args=[b"\xff", float("nan"), {3}, {(1, 2): dtm.date(2031, 1, 2)},
                                                                                 dtm.timedelta(1), taskfns.plain, "\ud800"])
        sim.sleep(2000)

    def both(what, f):
        """f(scheduler or client) on both; the outcomes are the same."""
        sim.note("both", what)
        out = []
        for x in (a.sched, c):
            try:
                out.append((snap(f(x)), None))
            except Exception as e:
                out.append((None, e))
        (r1, e1), (r2, e2) = out
        if e1 is not None:
            want = type(e1) if type(e1).__name__ in NAMES else RemoteSchedulerError
            if type(e2) is not want:
                w.fail("error", f"{what}: locally {e1!r}, remotely {e2!r} {r2}")
            same = str(e1) == str(e2) and vars(e1) == vars(e2) if want is not RemoteSchedulerError else str(e1) in str(e2)
            if not same:
                w.fail("error", f"{what}: locally {e1!r} ({e1} {vars(e1)}), remotely {e2!r} ({e2} {vars(e2)})")
            sim.probe("both_" + type(e1).__name__)
        elif e2 is not None or r1 != r2:
            if isinstance(r1, list) and isinstance(r2, list) and len(r1) == len(r2):
                r1, r2 = {i: x for i, x in enumerate(r1)}, {i: x for i, x in enumerate(r2)}
                (r1, r2) = ({k: v for k, v in r1.items() if r2.get(k) != v}, {k: v for k, v in r2.items() if r1.get(k) != v})
                if len(r1) == 1:
                    (r1,), (r2,) = r1.values(), r2.values()
            if isinstance(r1, dict) and isinstance(r2, dict):
                r1, r2 = ({k: v for k, v in r1.items() if r2.get(k) != v}, {k: v for k, v in r2.items() if r1.get(k) != v})
            w.fail("result", f"{what}: locally {r1}, remotely {r2} {e2!r}")
        else:
            sim.probe("both_ok")

    def gen_args():
        return sim.pick("w", [[], ["x"], [1, None, True, 2.5], [{"a": [1, {"b": "ü"}]}], [""]]), \
            sim.pick("w", [{}, {"k": "v"}, {"n": None, "d": {"e": [1]}}, {"": 0}])

    def trigger():
        now = from_us(w.wall())
        s_ = dtm.timedelta(seconds=1)
        k = sim.pick("w", ["date", "date_tz", "date_str", "interval", "interval_start", "cron", "none", "object", "bad", "bad_args",
                           "date_none", "interval_tz"])
        return {"date": ("date", dict(run_at=now + 5 * s_)), "date_none": ("date", {}), "none": (None, {}),
                "date_tz": ("date", dict(run_at=(now + 5 * s_).astimezone(dtm.timezone(dtm.timedelta(hours=2))))),
                "date_str": ("date", dict(run_at="2031-05-08 07:00:30", timezone="Europe/Berlin")),
                "interval": ("interval", dict(minutes=1, seconds=5)),
                "interval_start": ("interval", dict(seconds=7, start_at=now + 2 * s_, end_at=now + 40 * s_)),
                "interval_tz": ("interval", dict(hours=1, timezone="Europe/Berlin")),
                "cron": ("cron", dict(second="*/5", day_of_week="mon-fri")), "bad": ("never", {}),
                "bad_args": (sim.pick("w", ["cron", "interval", "date"]), dict(colour=1)),
                "object": (sim.pick("w", [DateTrigger(run_at=now + 9 * s_), CronTrigger(minute="3", timezone="Europe/Berlin"),
                                          IntervalTrigger(seconds=4, start_at=now)]), {})}[k]

    def step():
        tid = sim.pick("w", names)
        st = sim.pick("w", stores)
        k = sim.wpick("w", [(5, "add"), (3, "update"), (3, "run"), (2, "pause"), (2, "resume"), (1, "delete"), (2, "infos"), (1, "info"),
                            (1, "task_info"), (2, "preview"), (1, "lookup"), (1, "instances"), (1, "running"), (1, "get_task")])
        if k == "add":
            t, targs = trigger()
            ar, kw = gen_args()
            opt = {}
            for n, vals in (("name", ["n", "", "ü"]), ("mistrigger_grace_time", [None, 5, 2.5, -1, 1]), ("coalesce", [True, False]),
                            ("max_instances", [1, 3, 0]), ("executor", ["default", "x", None]), ("replace_existing", [True, False]),
                            ("next_run_time", [None, from_us(w.wall() + 3 * US), "2031-05-08 07:01:00", from_us(w.wall() + 60 * US
                             ).astimezone(dtm.timezone(dtm.timedelta(hours=-5))), "soon"])):
                if sim.chance("w", 30):
                    opt[n] = sim.pick("w", vals)
            if st is not None:
                opt["store"] = st
            fn = sim.pick("w", [taskfns.plain, "vsim.taskfns:plain", "vsim.taskfns:plain", "vsim.taskfns:job", "no.such:fn", "nocolon"])
            both(f"add_task({fn}, {t}, {targs}, {ar}, {kw}, {tid!r}, {opt})",
                 lambda s: s.add_task(fn, t, ar, kw, tid, **{**opt, **targs}))
        elif k == "update":
            ar, kw = gen_args()
            up = {}
            for n, vals in (("name", ["m", ""]), ("mistrigger_grace_time", [None, 7, 0]), ("coalesce", [True, False]),
                            ("max_instances", [1, 2, -1]), ("executor", ["x", "default"]), ("args", [ar]), ("kwargs", [kw]),
                            ("next_run_time", [None, from_us(w.wall() + 30 * US), "2031-05-08 07:02:00"]), ("id", ["q"]),
                            ("fn", ["vsim.taskfns:aplain", "no.such:fn"]), ("colour", [1])):
                if sim.chance("w", 18 if n not in ("id", "colour") else 3):
                    up[n] = sim.pick("w", vals)
            both(f"update_task({tid!r}, {st}, {up})", lambda s: s.update_task(tid, st, **up))
        elif k == "run":
            kw = {}
            if sim.chance("w", 40):
                kw = dict(force=bool(sim.pick("w", [0, 1])), remove_finished=bool(sim.pick("w", [0, 1])))
            both(f"run_task({tid!r}, {st}, {kw})", lambda s: s.run_task(tid, st, **kw))
        elif k in ("pause", "resume", "delete"):
            if k == "delete" and sim.chance("w", 50):
                return
            both(f"{k}_task({tid!r}, {st})", lambda s: getattr(s, k + "_task")(tid, st))
        elif k == "infos":
            kw = {}
            for n, vals in (("schedule_state", ["paused", TaskScheduleState.SCHEDULED, "idle"]), ("executor", ["x", ""]),
                            ("trigger", ["cron", "IntervalTrigger", " date "]), ("q", ["a", "T", "%", "& ="]),
                            ("sort_by", ["id", "name", "trigger", "colour"]), ("descending", [True, False]), ("store", stores)):
                if sim.chance("w", 30):
                    kw[n] = sim.pick("w", vals)
            both(f"get_task_infos({kw})", lambda s: s.get_task_infos(**kw))
        elif k == "info":
            both("get_scheduler_info", lambda s: s.get_scheduler_info())
        elif k == "instances":
            both("get_scheduler_instance_infos", lambda s: s.get_scheduler_instance_infos())
        elif k == "running":
            both("running", lambda s: s.running)
        elif k == "task_info":
            both(f"get_task_info({tid!r}, {st})", lambda s: s.get_task_info(tid, st))
        elif k == "get_task":
            both(f"get_task({tid!r}, {st})", lambda s: s.get_task(tid, st))
        elif k == "lookup":
            both(f"lookup_task({tid!r}, {st})", lambda s: s.lookup_task(tid, st)[0])
        else:
            kw = {}
            if sim.chance("w", 60):
                kw["count"] = sim.pick("w", [1, 3, 50, 0, 51, -1])
            if sim.chance("w", 30):
                kw["now"] = from_us(w.wall() + sim.pick("w", [0, 100, -50]) * US,
                                    sim.pick("w", [dtm.timezone.utc, dtm.timezone(dtm.timedelta(hours=2))]))
            both(f"preview_task_runs({tid!r}, {st}, {kw})", lambda s: s.preview_task_runs(tid, st, **kw))

    for _ in range(sim.rint("w", 6, 25)):
        sim.sleep(2000)
        if sim.chance("w", 40):
            sim.sleep(sim.rint("w", 1000, sim.pick("w", [100_000, 2_300_000, 20 * US])) | 1)
        step()
    sim.sleep(31 * US + sim.rint("w", 100_000, 900_000))
    n1 = sorted((x.task_id, tuple(x.times), x.result) for x in w.subs if x.ex and x.task is not None and owner(x, a))
    n2 = sorted((x.task_id, tuple(x.times), x.result) for x in w.subs if owner(x, b))
    if n1 != n2:
        w.fail("effect", f"hand-overs differ: locally {[x for x in n1 if x not in n2]}, remotely {[x for x in n2 if x not in n1]}")
    e1 = [(EVNAME.get(e.code), e.task_id, e.times) for e in w.events if e.sched == "one"]
    e2 = [(EVNAME.get(e.code), e.task_id, e.times) for e in w.events if e.sched == "two"]
    if sorted(map(repr, e1)) != sorted(map(repr, e2)):
        w.fail("effect", f"events differ: locally {[x for x in e1 if x not in e2]}, remotely {[x for x in e2 if x not in e1]}")
    both("get_task_infos()", lambda s: s.get_task_infos())
    for h in hs:
        if started:
            h.shutdown(wait=False)
        h.stop_app()
    w.close()
    return {"mode": "twin", "stores": kinds, "requests": len(net.reqs), "handovers": len(w.subs)}


def owner(sub, host):
    return getattr(sub, "owner", None) is host.sched or sub.task.scheduler is host.sched
