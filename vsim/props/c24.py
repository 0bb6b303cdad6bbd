"""C24 Dashboard actions do what they say and are audited truthfully."""
import json

from asyncz.contrib.dashboard.admin import AsynczAdmin
from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
from asyncz.contrib.dashboard.controllers import tasks as T
from asyncz.contrib.dashboard.engine import templates as TPL
from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
from lilya.apps import Lilya
from lilya.routing import RoutePath

from ..httpsim import Browser
from ..kernel import US
from ..seqspec import Ops, attach_runs, check_task
from ..storetools import fprint
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL as R0, STUB as S0
from .c05 import new_trigger

ID = "C24"
RUNS_QUICK = 2200
RUNS_THOROUGH = 150000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = R0 + ["asyncz.contrib.dashboard application, task controllers, helpers, templates, audit storage", "lilya routing, requests, "
             "sessions, jinja2"]
STUB = S0 + ["the HTTP server: requests are handed to the ASGI application in the client's thread or on the application's loop"]

BAD_EDITS = [("args", "{"), ("args", '"abc"'), ("args", "5"), ("kwargs", "[1]"), ("kwargs", "nope"), ("executor", ""),
             ("coalesce", "maybe"), ("coalesce", ""), ("max_instances", "0"), ("max_instances", "-3"), ("max_instances", "x"),
             ("max_instances", ""), ("mistrigger_grace_time", "-1"), ("mistrigger_grace_time", "0"),
             ("mistrigger_grace_time", "soon"), ("callable_path", ""), ("callable_path", "no.such.module:fn"),
             ("callable_path", "vsim.taskfns:nothing"), ("name", ""), ("args", "[]"), ("callable_path", "nocolon")]
BAD_CREATE = [{"callable_path": "no.such:fn"}, {"callable_path": ""}, {"callable_path": "vsim.taskfns:nothing"},
              {"trigger_type": "never"}, {"trigger_value": "soon"}, {"trigger_type": "cron", "trigger_value": "* *"},
              {"trigger_type": "cron", "trigger_value": "99 * * * *"}, {"trigger_type": "date", "trigger_value": "tomorrow"},
              {"args": "{"}, {"args": "5"}, {"kwargs": "[1, 2]"}, {"kwargs": "{"}, {"store": "nope"},
              {"args": "[]"}, {"kwargs": '{"tag": 1}'}]
PAGES = ["/tasks/", "/tasks/partials/table", "/tasks/?q=t&sort=name&direction=desc", "/tasks/?state=paused&per_page=1&page=2",
         "/", "/audit/", "/audit/?action=task.pause", "/runtime/", "/timeline/", "/history/", "/events/", "/logs/", "/instances/"]

# compiled once, outside the runs
TPL.env.auto_reload = False
for _n in TPL.env.list_templates(extensions=["html"]):
    TPL.env.get_template(_n)


class Rows(MemoryAuditTrailStorage):
    """The audit storage, with a note of who wrote what."""

    def __init__(self, w):
        super().__init__()
        self.w, self.rows = w, []

    def append(self, **kw):
        r = super().append(**kw)
        self.rows.append((self.w.sim.cur.name, self.w.seq(), r))
        return r


def run(sim):
    w = World(sim, ID)
    aliases = ["default", "b"][:sim.pick("w", [1, 2])]
    kinds = {a: sim.wpick("w", STORES) for a in aliases}
    ek = {"default": sim.wpick("w", EXECS)}
    inline = ek["default"] == "debug"
    h = Host(w, sim.wpick("w", MODES), stores={a: w.make_store(k, where=a) for a, k in kinds.items()},
             executors={a: w.make_executor(k, **({"max_workers": 4} if k in ("thread", "process") else {}))
                        for a, k in ek.items()}, store_retry_interval=2)
    s = h.sched
    w.default_plan = Plan((0, 20_000) if inline else sim.pick("w", [(0, 300_000), (0, 2_500_000)]))
    ops = Ops(w)
    audit = Rows(w)
    admin = AsynczAdmin(scheduler=s, url_prefix="/dashboard", audit_storage=audit, log_storage=MemoryLogStorage(),
                        run_history_storage=MemoryRunHistoryStorage())
    app = Lilya()
    admin.include_in(app)
    # the redirecting controllers, for applications which mount them themselves
    plain_app = Lilya(routes=[RoutePath("/{task_id:str}/" + n, c.with_init(scheduler=s)) for n, c in (
        ("run", T.TaskRunController), ("pause", T.TaskPauseController), ("resume", T.TaskResumeController),
        ("remove", T.TaskRemoveController))], middleware=[admin.config.session_middleware])
    home = {f"t{i}": sim.pick("w", aliases) for i in range(sim.pick("w", [2, 3, 4]))}
    if sim.chance("w", 15):
        home["a b,ü".replace(",", "")] = aliases[0]
    ids = sorted(home)
    created = {}
    faults = []          # armed: [thread, op, task or None, fired]
    fired = []           # (thread, seq, task)
    statuses = {}

    def store_fault(alias, op, tid):
        for f in faults:
            if f[0] == sim.cur.name and f[1] == op and (f[2] is None or f[2] == tid):
                faults.remove(f)
                fired.append((f[0], w.seq(), tid))
                return "before"
        return None
    w.store_fault = store_fault

    def exec_fault(alias, tid):
        for f in faults:
            if f[0] == sim.cur.name and f[1] == "send" and f[2] == tid:
                faults.remove(f)
                fired.append((f[0], w.seq(), tid))
                return True
        return False
    w.exec_fault = exec_fault

    def add(tid):
        t, r = new_trigger(sim, w.wall())
        k = ops.ref(r)
        v = f"n{sim.fresh()}"
        ops.call("add", tid, lambda: s.add_task(taskfns.job, t, args=[tid], id=tid, name=v, coalesce=False, store=home[tid],
                                                mistrigger_grace_time=None, max_instances=sim.pick("w", [50, 50, 1])),
                 (ConflictIdError, TaskLookupError), store=home[tid], ref=k, co=False, val=v)

    def arm(kind, tid):
        """Sometimes one of the operations this action needs fails."""
        if not sim.chance("w", 20):
            return
        c = {"run": ["lookup_task", "send"], "pause": ["update_task", "lookup_task"], "resume": ["lookup_task"],
             "delete": ["delete_task"], "update": ["lookup_task", "update_task"]}[kind]
        if kinds[home[tid]] == "memory":      # nothing there can fail
            c = [x for x in c if x == "send"]
            if not c:
                return
        faults.append([sim.cur.name, sim.pick("w", c), tid, False])

    def show(br, status, body):
        if br.error is not None or status >= 500 and status != 503:
            w.fail("page", f"the page broke: {status} {br.error!r} {body[:200]!r}")
        statuses[status] = statuses.get(status, 0) + 1

    def records(a0, action, want):
        """The audit records this thread has written since, one for each task in `want`."""
        me = sim.cur.name
        got = [(n, r) for t, n, r in audit.rows[a0:] if t == me]
        out = {}
        for n, r in got:
            if r.action != f"task.{action}" or r.status not in ("succeeded", "failed", "warning"):
                w.fail("record", f"{action} of {want} was recorded as {r}")
            if r.target_id in out:
                w.fail("record", f"{action} of {want}: task {r.target_id} has several records: {[x[1] for x in got]}")
            out[r.target_id] = r
        if want is not None and sorted(out, key=str) != sorted(want, key=str):
            w.fail("record", f"{action} of {want} left records for {sorted(out, key=str)}")
        return out

    def settle(o, rec, tid, s0, seen_fault):
        """Turns what the record says into an outcome; None when it was refused for another reason."""
        if rec.status == "succeeded":
            o.exc, o.res = None, True
            if seen_fault:
                w.fail("untrue", f"{o.kind} of {tid} met a fault but was recorded as {rec}")
            return True
        o.res = None
        if rec.status == "warning":
            o.exc = "MaximumInstancesError"
            if o.kind != "run":
                w.fail("record", f"{o.kind} of {tid} was recorded as {rec}")
            return True
        if rec.message == "Task was not found." and not seen_fault:
            o.exc = "TaskLookupError"
            return True
        if not seen_fault:
            w.fail("untrue", f"{o.kind} of {tid} was recorded as {rec} although nothing was wrong")
        o.exc = "refused"
        return False

    K = {"run": "run", "pause": "pause", "resume": "resume", "remove": "delete"}

    def action(br):
        act = sim.wpick("w", [(3, "run"), (3, "pause"), (3, "resume"), (2, "remove")])
        kind = K[act]
        how = sim.wpick("w", [(3, "hx"), (3, "bulk"), (1, "plain")])
        if how == "bulk":
            # ids of tasks that exist, have been removed, or never existed
            sel = [t for t in ids + ["ghost"] if sim.chance("w", 60)] or [ids[0]]
            sel = sel[::-1] if sim.chance("w", 50) else sel
            form = sim.pick("w", ["json", "comma"])
            if form == "json":
                raw = json.dumps(sel + sel[:1] if sim.chance("w", 20) else sel)
            else:
                raw = sim.pick("w", [",", ", "]).join(sel)
            path, data = f"/tasks/hx/bulk/{act}", {"ids": raw}
        else:
            sel = [sim.pick("w", ids + ["ghost"])]
            path, data = f"/tasks/{quote(sel[0])}/{act}", {}
        for t in sel:
            if t != "ghost":
                arm(kind, t)
        a0, s0 = len(audit.rows), w.seq()
        me = sim.cur
        use = br
        if how == "plain":
            use, path = plain, path[len("/tasks"):]

        def go():
            if act == "run":
                w.manual_threads.add(me)
            try:
                return use.post(path, data)
            finally:
                w.manual_threads.discard(me)
        # parts of the action which reach other tasks share its moment
        o = ops.call(kind, sel[0], go, (), store=home.get(sel[0], "default"), **({"remove": False} if act == "run" else {}),
                     **({"blind": True} if act == "resume" else {}))
        left = [f for f in faults if f[0] == me.name]
        for f in left:
            faults.remove(f)
        st, hd, body = o.res
        show(use, st, body)
        if how == "plain" and (st != 302 or dict(hd).get("location") != "/tasks"):
            w.fail("page", f"{act}: answered {st} {hd}")
        if how != "plain" and st != 200:
            w.fail("page", f"{act}: answered {st}")
        recs = records(a0, act, sel)
        hit = {t for th, n, t in fired if th == me.name and n > s0}
        for i, t in enumerate(sel):
            p = o if i == 0 else ops.also(o, kind, t, True, **o.a)
            if not settle(p, recs[t], t, s0, t in hit):
                ops.ops.remove(p)
            sim.probe(f"{act}_{recs[t].status}")

    def quote(x):
        from urllib.parse import quote as q
        return q(x, safe="")

    def create(br):
        name = f"c{sim.fresh()}"
        store = sim.pick("w", aliases)
        form = {"callable_path": "vsim.taskfns:job", "name": name, "store": store, "args": json.dumps([name]), "kwargs": "{}"}
        sec = w.wall() // US
        kind = sim.pick("w", ["date", "interval", "cron"])
        at = (sec + sim.pick("w", [1, 2, 5, 200])) * US
        form["trigger_type"] = kind
        form["trigger_value"] = {"date": from_us(at).isoformat(), "interval": sim.pick("w", ["5000s", "90m", "2h", "7000"]),
                                 "cron": "0 0 1 1 *"}[kind]
        if kind == "date" and sim.chance("w", 10):
            form["trigger_value"] = from_us(at).isoformat().replace("+", " ")
        bad = None
        if sim.chance("w", 40):
            bad = sim.pick("w", BAD_CREATE)
            form.update(bad)
        elif sim.chance("w", 20) and kinds[store] != "memory":
            bad = "fault"
            faults.append([sim.cur.name, "add_task", None, False])
        a0, t0 = len(audit.rows), w.wall()
        s0 = w.seq()
        o = ops.call("create", "*", lambda: br.post("/tasks/create", form))
        t1 = w.wall()
        faults[:] = [f for f in faults if f[0] != sim.cur.name]
        show(br, o.res[0], o.res[2])
        if o.res[0] != 200:
            w.fail("page", f"create: answered {o.res[0]}")
        recs = records(a0, "create", None)
        if len(recs) != 1:
            w.fail("record", f"one create left {len(recs)} records")
        rec, = recs.values()
        if bad is not None:
            if rec.status != "failed":
                w.fail("untrue", f"create with {bad} was recorded as {rec}")
            if any(t.name == name for t in s.get_tasks()):
                w.fail("effect", f"a refused create added the task: {form}")
            sim.probe("create_refused")
            return
        if rec.status != "succeeded":
            w.fail("untrue", f"create with {form} was recorded as {rec}")
        tid = rec.target_id
        created[tid] = (name, store)
        sim.probe("created")
        if kind == "date":
            r = RDate(at)
            r.desc = "date"
            home[tid] = store
            p = ops.also(o, "add", tid, True, ref=ops.ref(r), co=True, val=name)
            p.store = store
            return
        t = s.get_task(tid, store)
        if t is None:
            w.fail("effect", f"the created task {form} does not exist")
        step = {"5000s": 5000, "90m": 5400, "2h": 7200, "7000": 7000}.get(form["trigger_value"])
        nxt = to_us(t.next_run_time)
        if t.name != name or list(t.args) != [name] or dict(t.kwargs) or t.fn is not taskfns.job:
            w.fail("effect", f"create with {form} made {fprint(t)}")
        if step and not t0 + step * US <= nxt <= t1 + step * US or t.trigger.alias != kind:
            w.fail("effect", f"create with {form} between {w.rel(t0)} and {w.rel(t1)} made a task due at {w.rel(nxt)}")

    def edit(br):
        tid = sim.pick("w", ids + ["ghost"])
        apply = sim.chance("w", 70)
        v = f"n{sim.fresh()}"
        co = sim.pick("w", [False, True])
        mark = sim.fresh()
        form = {"intent": sim.pick("w", ["apply", " APPLY "]) if apply else sim.pick("w", ["preview", "", "x"]), "name": v,
                "callable_path": "vsim.taskfns:job", "args": json.dumps([tid, mark]), "kwargs": "{}", "executor": "default",
                "coalesce": sim.pick("w", ["true", "on", "1"] if co else ["false", "no", "0"]), "max_instances": "50",
                "mistrigger_grace_time": ""}
        if sim.chance("w", 50):
            form["clear_mistrigger_grace_time"] = "on"
        bad = None
        if sim.chance("w", 35):
            bad = sim.pick("w", BAD_EDITS)
            form[bad[0]] = bad[1]
            if bad[0] == "mistrigger_grace_time":
                form.pop("clear_mistrigger_grace_time", None)
        if tid != "ghost" and apply and bad is None:
            arm("update", tid)
        a0, s0 = len(audit.rows), w.seq()
        o = ops.call("update", tid, lambda: br.post(f"/tasks/{quote(tid)}/edit", form), store=home.get(tid, "default"),
                     val=v, co=co)
        faults[:] = [f for f in faults if f[0] != sim.cur.name]
        st, hd, body = o.res
        show(br, st, body)
        hit = any(th == sim.cur.name and n > s0 for th, n, t in fired)
        if st == 404 or bad is not None or apply or hit:
            sim.note("edit", form, st, hit)
            rec = records(a0, "update", [tid])[tid]
            known = settle(o, rec, tid, s0, hit or bad is not None and st != 404)
        else:
            records(a0, "update", [])
            known = False
            if st != 200:
                w.fail("page", f"a preview was answered {st}")
        if bad is not None and st not in (400, 404):
            w.fail("page", f"an edit with {bad} was answered {st}")
        if not known:
            ops.ops.remove(o)
        elif o.exc is None and st != 200 or o.exc == "TaskLookupError" and st != 404:
            w.fail("page", f"an edit recorded as {o.exc or 'succeeded'} was answered {st}")
        sim.probe(f"edit_{'bad' if bad else o.exc or 'ok'}")

    def look(br):
        tid = sim.pick("w", ids + ["ghost"] + sorted(created)[-1:])
        p = sim.pick("w", PAGES + [f"/tasks/{quote(tid)}", f"/tasks/{quote(tid)}/edit"] * 3)
        a0 = len(audit.rows)
        o = ops.call("look", "*", lambda: br.get(p))
        st = o.res[0]
        show(br, st, o.res[2])
        if st != 200 and not (st == 404 and p.startswith("/tasks/" + quote(tid))):
            w.fail("page", f"{p} was answered {st}")
        if p.startswith(f"/tasks/{quote(tid)}") and tid not in ("ghost",):
            ops.also(o, "has", tid, True if st == 200 else None).store = home.get(tid, "default")
            if tid not in home:
                ops.ops.pop()
        records(a0, "look", [])

    browsers = {}
    plain = Browser(plain_app)

    def client(k):
        br = browsers[k] = Browser(app, "/dashboard")
        onloop = h.mode != "thread" and sim.chance("w", 40)
        for _ in range(sim.rint("w", 3, 8)):
            sim.sleep(sim.pick("w", [1, 200_000, 700_000, 1 * US, 50_000]))
            a = sim.wpick("w", [(5, action), (2, edit), (2, create), (2, look), (2, None)])
            if a is None:
                add(sim.pick("w", ids))
            elif onloop:
                h.in_loop(lambda: a(br))
            else:
                a(br)

    style_for_run(sim, calm=35)
    h.start()
    for tid in ids:
        add(tid)
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(sim.pick("w", [1, 2, 2, 3]))]
    for t in ths:
        sim.join(t)
    sim.sleep(sim.pick("w", [500_000, 3 * US]))
    t_end = quiesce(w, h, 1)
    h.sched.pause()
    sim.sleep(400_000)
    attach_runs(w, ops.ops)
    for tid in sorted(home):
        t = s.get_task(tid, home[tid])
        final = None if t is None else (to_us(t.next_run_time) if t.next_run_time else None, t.name)
        my = [o for o in ops.ops if o.task == tid]
        atts = [x for x in w.subs if x.task_id == tid and not x.manual and x.result in ("ok", "max")]
        check_task(w, ops.refs, tid, home[tid], my, atts, final, t_end)
        if t is not None and (t.executor != "default" or tuple(t.args)[:1] != ((created[tid][0] if tid in created else tid),)):
            w.fail("effect", f"task {tid} has become {fprint(t)}")
    extra = {t.id for t in s.get_tasks()} - set(home) - set(created)
    if extra:
        w.fail("extra", f"tasks nobody asked for: {sorted(extra)}")
    lost = {c for c in created if c not in home} - {t.id for t in s.get_tasks()}
    if lost:
        w.fail("lost", f"created tasks disappeared: {sorted(lost)}")
    # what was recorded is what the trail shows
    shown = audit.query(limit=10_000)
    if sorted(r.event_id for r in shown) != sorted(r.event_id for _, _, r in audit.rows):
        w.fail("trail", f"{len(audit.rows)} records were written, the trail shows {len(shown)}")
    # a stopped scheduler refuses runs; the page still works
    h.shutdown(wait=False)
    br = Browser(app, "/dashboard")
    tid = ids[0]
    for act in ("run", "pause"):
        a0 = len(audit.rows)
        n = len(w.subs)
        st, hd, body = br.post(f"/tasks/{quote(tid)}/{act}")
        show(br, st, body)
        rec = records(a0, act, [tid])[tid]
        if act == "run" and (rec.status != "failed" or len(w.subs) != n):
            w.fail("untrue", f"a run while the scheduler is stopped was recorded as {rec}")
    h.stop_app()
    w.close()
    for k, n in statuses.items():
        sim.probe(f"http_{k}", n)
    return {"stores": kinds, "executors": ek, "ops": [repr(o) for o in ops.ops], "records": len(audit.rows)}
