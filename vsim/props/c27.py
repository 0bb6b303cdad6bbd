"""C27 The dashboard is only served to sessions it has issued itself."""
import dataclasses
import html
import re
import urllib.parse

from asyncz import monkay
from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend, User
from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
from asyncz.contrib.dashboard.config import DashboardConfig
from asyncz.contrib.dashboard.engine import templates as TPL
from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
from lilya.apps import Lilya
from lilya.middleware.sessions import SessionMiddleware
from lilya.routing import Include

from ..httpsim import Browser
from ..kernel import US
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL as R0, STUB as S0

ID = "C27"
RUNS_QUICK = 3000
RUNS_THOROUGH = 150000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = R0 + ["asyncz.contrib.dashboard.admin (gate, login backend, forwarded prefix), DashboardConfig, the dashboard application behind "
             "them", "lilya routing, sessions, itsdangerous"]
STUB = S0 + ["the HTTP server: requests are handed to the ASGI application in the client's thread", "the browser (cookies, forms)"]

TPL.env.auto_reload = False
for _n in TPL.env.list_templates(extensions=["html"]):
    TPL.env.get_template(_n)

DAY = 86400
MARK = "TOPSECRET"


def run(sim):
    w = World(sim, ID)
    h = Host(w, sim.wpick("w", MODES), stores={"default": w.make_store("memory", where="default")},
             executors={"default": w.make_executor("thread")})
    s = h.sched
    w.default_plan = Plan((0,))
    prefix = sim.pick("w", ["/dashboard", "/dashboard", "/ops/x", "/login-desk", "/static2", "/assets_", "/logouts/x"])
    how = sim.pick("w", ["included", "direct", "mounted", "mounted_prefix", "plain"])
    mount = "/admin" if how.startswith("mounted") else ""
    base = mount + ("" if how in ("mounted", "plain") else prefix)
    forward = sim.chance("w", 30)
    max_age = sim.pick("w", [14 * DAY, 14 * DAY, 3600, 60])
    secret = sim.pick("w", [None, "s" * 20, "another secret"])
    skey = sim.pick("w", ["asyncz_admin", "other"])
    extra = sim.pick("w", [{}, {"role": "ops"}])
    users = {"ann": "pw-ann", "bob": " p w ", "é": "ü", "nil": ""}
    alive = [True]
    asked = []
    issued = {}        # cookie value -> (second it was signed, incarnation, user, logged out)
    retired = set()    # values a browser has been told to forget
    inc = [0]

    def verify(u, p):
        asked.append((sim.cur.name, u, p))
        sim.sleep(sim.pick("w", [0, 0, 2 * US]))
        if not alive[0]:
            raise ConnectionError("directory unavailable")
        if users.get(u) == p:
            return User(id=u, name=u.upper(), **extra)
        return None

    audit = MemoryAuditTrailStorage()

    def build():
        """A process: the application as a deployment builds it."""
        inc[0] += 1
        admin = AsynczAdmin(enable_login=True, backend=SimpleUsernamePasswordBackend(verify, session_key=skey), scheduler=s,
                            url_prefix=prefix, enable_forward_middleware=forward, trusted_forwarded_hosts=("10.0.0.1",),
                            log_storage=MemoryLogStorage(), run_history_storage=MemoryRunHistoryStorage(), audit_storage=audit)
        admin.config = dataclasses.replace(DashboardConfig(), secret_key=secret, max_age=max_age, dashboard_url_prefix=prefix)
        if how == "included":
            app = Lilya()
            admin.include_in(app)
        elif how == "direct":
            app = admin.get_asgi_app(with_url_prefix=True)
        elif how == "plain":
            app = admin.get_asgi_app()
        else:
            app = Lilya(routes=[Include(mount, app=admin.get_asgi_app(with_url_prefix=how == "mounted_prefix"))])
        return app

    apps = [build()]
    h.start()
    s.add_task(taskfns.plain, "date", run_at="2090-01-01", id="t1", name=MARK)
    s.add_task(taskfns.plain, "date", run_at="2090-01-01", id="t2", name=MARK + "2")
    for i in ("login", "static"):
        s.add_task(taskfns.plain, "date", run_at="2090-01-01", id=i, name=MARK + i)
    state = lambda: [(t.id, t.name, t.next_run_time) for t in s.get_tasks()]  # noqa
    cookie = DashboardConfig().session_cookie
    foreign = forge(skey, secret)

    def valid(v):
        """True, False, or None if either is right: does this cookie prove a login?"""
        if v is None:
            return False
        v = v.strip('"')
        if v not in issued:
            return False
        t, n, user, out = issued[v]
        if secret is None and n != inc[0]:
            return False
        age = int(w.wall() // US) - t
        if age > max_age:
            return False
        if age >= max_age - 1:
            return None
        # a signed cookie can not be called back: after a logout somebody who has kept it may still use it
        return None if v in retired else True

    class Client(Browser):
        def request(self, *a, **k):
            # the process which runs now gets the request
            self.app, self.inc = apps[-1], inc[0]
            return super().request(*a, **k)

    def learn(rh, was, user, br):
        """What the answer says about the session."""
        for k, v in rh:
            if k != "set-cookie":
                continue
            n, _, val = v.partition(";")[0].partition("=")
            if n != cookie:
                continue
            val = val.strip('"')
            if val == "null":
                if was:
                    retired.add(was.strip('"'))
                continue
            if user is None:
                w.fail("session", f"a session was issued without a login: {v}")
            issued.setdefault(val, (int(w.wall() // US), br.inc, user, False))
            retired.discard(val)
            return val

    def pages():
        rel = sim.pick("w", ["/tasks/", "/tasks/partials/table", "/", "/tasks/t1", "/tasks/t1/edit", "/tasks/create", "/audit/", "/logs/",
                             "/runtime/", "/history/", "/events/", "/timeline/", "/instances/", "/tasks/t1?q=a&b=c d", "/tasks/?q=é&x=1",
                             "/nope", "/logs/partials/table", "", "/history/partials/table", "/tasks/日本", "/tasks/a%26b%3Fc"])
        k = sim.wpick("w", [(6, "page"), (1, "near"), (1, "action")])
        if k == "near":
            # close to what is open to everybody, but not the same
            return "GET", sim.pick("w", [mount + "/loginx", mount + "/login.html", base + "/login/tasks", base + "/staticx/",
                                         base + "/tasks/login", base + "/tasks/static", mount + "//tasks/", base + "//tasks/",
                                         base + "/static/../tasks/", base + "/login/../tasks/", base + "/tasks/static/",
                                         mount + "/login%2f..%2ftasks/", base + "/tasks/;/login", "/" + base + "/tasks/",
                                         base + "/tasks/logout", base + "/assetsx", base.upper() + "/TASKS/",
                                         mount + "/LOGIN", base + "/./login"]), None
        if k == "action":
            m, p = sim.pick("w", [("POST", "/tasks/t1/pause"), ("POST", "/tasks/hx/bulk/remove"), ("POST", "/tasks/t1/remove"),
                                  ("POST", "/tasks/t1/run"), ("POST", "/tasks/create"), ("POST", "/tasks/t1/edit"),
                                  ("POST", "/tasks/hx/bulk/pause"), ("POST", "/tasks/t2/resume")])
            return m, base + p, {"task_ids": "t1", "ids": "t1", "name": "evil", "action": "pause", "callable_path": "vsim.taskfns:plain",
                                 "trigger_type": "date", "trigger_value": "2091-01-01T00:00:00"}
        return sim.wpick("w", [(8, "GET"), (1, "HEAD"), (1, "POST"), (1, "OPTIONS"), (1, "PUT"), (1, "DELETE")]), base + rel, None

    def browse(br, jar, m=None, path=None, form=None, plain=False):
        """One request; what comes back is what the session deserves."""
        if path is None:
            m, path, form = pages()
        path = path or "/"
        hs = []
        hx = sim.chance("w", 25) and not plain
        if hx:
            hs.append(("hx-request", sim.pick("w", ["true", "true", "false", "TRUE"])))
        if sim.chance("w", 15) and not plain:
            hs.append(("x-forwarded-prefix", sim.pick("w", ["/ext", "/login", "/static", "/"])))
        if sim.chance("w", 10) and not plain:
            hs.append(("origin", "http://evil"))
        ck = jar.get(cookie)
        ok = valid(ck)
        t0 = int(w.wall() // US)
        n0, a0, s0 = inc[0], len(audit.list() if hasattr(audit, "list") else audit.query()), state()
        target = urllib.parse.quote(path, safe="/%?&=;+.") if m != "RAW" else path
        r = br.request(m, target, form, headers=hs, cookies=jar)
        status, rh, body = r
        if inc[0] != n0:
            ok = None
        if ok is True and valid(ck) is not True:
            ok = None
        d = dict(rh)
        if br.error is not None and type(br.error).__name__ == "NoEventLoopError":
            # the static files were reached, which wait for a thread
            br.error, static = None, True
            status = 200
        else:
            static = False
        p = urllib.parse.unquote(path.partition("?")[0].partition("#")[0])
        if ck in foreign:
            # the session of somebody else which is kept alive is no login
            mine = [v for v in (x.partition(";")[0].partition("=")[2].strip('"') for k, x in rh if k == "set-cookie") if v != "null"]
            foreign.extend(mine)
            rh = [x for x in rh if x[0] != "set-cookie"]
        val = learn(rh, ck, issued.get((ck or "").strip('"'), [0, 0, None])[2] if ok is not False else None, br)
        refused = status == 401 or status in (302, 303, 307) and urllib.parse.urlsplit(d.get("location", "")).path == mount + "/login"
        loc = d.get("hx-redirect") if status == 401 else d.get("location")
        if any(c in x for k, x in rh for c in "\r\n\0") :
            w.fail("header", f"{m} {path!r}: a header of the answer contains a line break: {rh}")
        if ok is False:
            if isinstance(br.error, Exception):
                w.fail("error", f"{m} {path!r} without a session broke: {br.error!r}")
            if MARK.encode() in body:
                w.fail("served", f"{m} {path!r} ({hs}, cookie {ck!r}) was served without a valid session: {status} {body[:300]!r}")
            if not h_busy[0] and (state() != s0):
                w.fail("acted", f"{m} {path!r} without a valid session changed the tasks: {s0} -> {state()}")
            inside = p == base or p.startswith(base + "/")
            if base and not inside and not p.startswith(mount + "/"):
                pass
            elif static and p.startswith((base + "/static/", base + "/assets/")):
                pass
            elif not refused and status < 400 and not (m == "OPTIONS" and "origin" in dict(hs)) and not redirected(status, d, p):
                w.fail("served", f"{m} {path!r} ({hs}, cookie {ck!r}) was answered {status} without a valid session: {body[:300]!r}")
            if refused and status == 401 and ("hx-request", "true") not in hs:
                w.fail("answer", f"{m} {path!r} {hs}: 401 for a browser")
            if refused and ("hx-request", "true") in hs and status != 401:
                w.fail("answer", f"{m} {path!r} {hs}: a fragment request was redirected ({status})")
            if refused and loc is not None:
                u = urllib.parse.urlsplit(loc)
                q = urllib.parse.parse_qs(u.query, keep_blank_values=True)
                if u.path != mount + "/login" or u.scheme or u.netloc:
                    w.fail("answer", f"{m} {path!r} was sent to {loc}")
                want = [urllib.parse.unquote(target.partition("?")[0])]
                if [urllib.parse.unquote(x.partition("?")[0]) for x in q.get("next", [])] != want:
                    w.fail("next", f"{m} {path!r} was sent to {loc}, from where one does not come back to {want}")
        elif ok is True:
            if refused:
                w.fail("refused", f"{m} {path!r}: a valid session ({issued[ck.strip(chr(34))]}) was turned away: {status} {rh}")
            if br.error is not None:
                if form is None or True:
                    w.fail("error", f"{m} {path!r} broke: {br.error!r}")
            if m == "GET" and path == base + "/tasks/" and s.get_task("t2") and (status != 200 or MARK.encode() not in body):
                w.fail("page", f"the task list was not shown to a valid session: {status} {body[:200]!r}")
        sim.probe(f"{ok}_{status}")
        del t0, a0
        return status, rh, body, refused, loc, val

    def redirected(status, d, p):
        """A redirect to the same address with a slash is as good as the refusal of that address."""
        loc = d.get("location")
        return status in (301, 302, 303, 307, 308) and loc is not None and \
            urllib.parse.unquote(urllib.parse.urlsplit(loc).path).rstrip("/") == p.rstrip("/")

    def login(br, jar, nxt_from=None):
        """As a browser does it: the form, filled and sent where it says."""
        u = sim.pick("w", list(users) + ["ann", "eve", "", "ANN", "ann "])
        p = sim.pick("w", [users.get(u.strip()), users.get(u.strip()), "wrong", "", "pw-ann", None, "PW-ANN", " pw-ann"])
        loc = nxt_from or mount + "/login"
        if nxt_from is None and sim.chance("w", 40):
            loc += "?next=" + urllib.parse.quote(sim.pick("w", ["//evil.example/x", "https://evil.example/", base + "/logs/", "/\\evil.example",
                                                                "javascript:alert(1)", "", "\\\\evil.example", "http:evil.example",
                                                                "/\t/evil.example", " //evil.example", "///evil.example"]))
        ck = jar.get(cookie)
        st, rh, body = br.get(loc, cookies=jar)
        learn(rh, ck, issued.get((ck or "").strip('"'), [0, 0, None])[2] if valid(ck) is not False else None, br)
        if st != 200 or br.error is not None:
            w.fail("login", f"the login page {loc} is not served: {st} {br.error!r} {body[:200]!r}")
        text = body.decode()
        action = html.unescape(re.search(r'<form[^>]*action="([^"]*)"', text).group(1))
        action = urllib.parse.urlsplit(action).path
        nxt = html.unescape(re.search(r'name="next" value="([^"]*)"', text).group(1))
        tries = 0
        while True:
            tries += 1
            form = {"next": nxt}
            if u is not None:
                form["username"] = u
            if p is not None:
                form["password"] = p
            jar0 = dict(jar)
            ck = jar.get(cookie)
            n0, n1 = len(asked), inc[0]
            was_alive = alive[0]
            good = users.get(u.strip(), None) == (p or "")
            was = valid(ck)
            st, rh, body = br.post(action, form, cookies=jar)
            if was is not False and valid(ck) is not True:
                was = None
            mine = [x[1:] for x in asked[n0:] if x[0] == sim.cur.name]
            if mine != [(u.strip(), p or "")] and (mine or was is False):
                w.fail("verify", f"login as {u!r} / {p!r}: the backend was asked {mine}")
            d = dict(rh)
            if br.error is not None or not was_alive or not alive[0]:
                if was_alive and alive[0]:
                    w.fail("error", f"the login broke: {br.error!r}")
                if not was_alive and not alive[0]:
                    learn(rh, ck, None if was is False else "?", br)
                    if was is False and valid(jar.get(cookie)) is not False:
                        w.fail("session", "a session was issued while the user directory was not available")
                    return
                val = learn(rh, ck, u.strip() if good or was is not False else None, br)
                return
            if good:
                val = learn(rh, ck, u.strip(), br)
                if st != 303 or val is None:
                    w.fail("login", f"login as {u!r} with the right password: {st} {rh} {body[:200]!r}")
                dest = d["location"]
                us = urllib.parse.urlsplit(dest)
                if us.scheme or us.netloc or dest[:1] != "/" or dest[1:2] in ("/", "\\") or any(ord(c) < 33 for c in dest):
                    w.fail("redirect", f"the login (next {nxt!r}) sent the browser to another site: {dest!r}")
                if nxt_from is not None:
                    return dest
                sim.probe("login_ok")
                return
            val = learn(rh, ck, None if was is False else issued[ck.strip('"')][2], br)
            if val is not None and was is False or st == 303 and "location" in d and was is False:
                w.fail("login", f"login as {u!r} with {p!r} was accepted: {st} {rh}")
            if was is False and valid(jar.get(cookie)) is not False:
                w.fail("session", f"login as {u!r} with {p!r} gave a session")
            if MARK.encode() in body:
                w.fail("served", "the answer to a failed login shows the dashboard")
            sim.probe("login_failed")
            del jar0, n1
            if tries > 2 or not sim.chance("w", 50):
                return
            nxt2 = html.unescape(re.search(r'name="next" value="([^"]*)"', body.decode()).group(1))
            # (the form parser of the web framework decodes values twice)
            if urllib.parse.unquote(nxt2) != urllib.parse.unquote(nxt):
                w.fail("next", f"after a failed login the page asked for is forgotten: {nxt!r} -> {nxt2!r}")
            u = "ann"
            p = "pw-ann"

    h_busy = [0]

    def client(k):
        br = Client(None, "", headers=[])
        jar, kept = {}, []
        for _ in range(sim.rint("w", 4, 12)):
            if sim.chance("w", 60):
                sim.sleep(sim.pick("w", [1, 1 * US, 30 * US, 59 * US, 61 * US, 1800 * US, 3601 * US, DAY * US, 14 * DAY * US + US,
                                         13 * DAY * US]))
            # a session ends in the browser too
            c = jar.get(cookie)
            a = sim.wpick("w", [(6, "page"), (4, "login"), (1, "logout"), (2, "tamper"), (1, "replay"), (1, "foreign"), (2, "follow"),
                                (1, "public"), (1, "none")])
            if c and c not in kept:
                kept.append(c)
            if a == "page":
                browse(br, jar)
            elif a == "none":
                browse(br, {})
            elif a == "login":
                login(br, jar)
                if br.inc == inc[0]:
                    browse(br, jar, "GET", base + "/tasks/", plain=True)
            elif a == "logout":
                was = valid(c)
                st, rh, body = br.request(sim.pick("w", ["GET", "POST"]), mount + "/logout", cookies=jar)
                learn(rh, c, None, br)
                if st not in (303,) or br.error is not None:
                    w.fail("logout", f"logout: {st} {br.error!r} {body[:200]!r}")
                if was is True and cookie in jar and jar[cookie] == c:
                    w.fail("logout", f"after the logout the browser still has its session: {rh}")
                if was is not False and cookie not in jar:
                    browse(br, jar, "GET", base + "/tasks/", plain=True)
            elif a == "tamper" and kept:
                v = tamper(sim, sim.pick("w", kept))
                browse(br, {cookie: v})
            elif a == "replay" and kept:
                browse(br, {cookie: sim.pick("w", kept)})
            elif a == "foreign":
                browse(br, {cookie: sim.pick("w", foreign)})
            elif a == "public":
                st, rh, body = br.get(mount + "/login", cookies={})
                if st != 200 or MARK.encode() in body:
                    w.fail("login", f"the login page: {st}")
            elif a == "follow":
                # what a person does: is sent to the login, logs in, comes back
                m, path, form = pages()
                path = path or "/"
                if m != "GET":
                    continue
                st, rh, body, refused, loc, _ = browse(br, {}, m, path, form, plain=True)
                if refused and st == 303:
                    j2 = {}
                    dest = login(br, j2, nxt_from=loc)
                    if dest is not None:
                        want = urllib.parse.unquote(path.partition("#")[0].partition("?")[0])
                        q = urllib.parse.urlsplit(urllib.parse.quote(path, safe="/%?&=;+.")).query
                        if safe_path(want) and "%" not in path and (
                                urllib.parse.unquote(urllib.parse.urlsplit(dest).path) != want or
                                urllib.parse.parse_qs(urllib.parse.urlsplit(dest).query) != urllib.parse.parse_qs(q)):
                            w.fail("next", f"asked for {path!r}, after the login sent to {dest!r}")
                        sim.probe("came_back")

    def safe_path(p):
        return p[1:2] not in ("/", "\\")

    def operator():
        for _ in range(sim.rint("w", 0, 3)):
            sim.sleep(sim.pick("w", [100 * US, 3000 * US, DAY * US, 5 * DAY * US]))
            if sim.chance("w", 50):
                sim.fault("dashboard_restart")
                apps.append(build())
            else:
                sim.fault("user_directory_down")
                alive[0] = False
                sim.sleep(sim.pick("w", [1 * US, 100 * US]))
                alive[0] = True

    # one process serves one request at a time, as an application without waiting points does
    n = sim.pick("w", [1, 1, 2, 3])
    if n > 1:
        h_busy[0] = 1
    sim.configure_preemption(0)
    h_ops = sim.spawn(operator, name="operator")
    ths = [sim.spawn(lambda k=k: client(k), name=f"client{k}") for k in range(n)]
    for t in ths + [h_ops]:
        sim.join(t)
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"how": how, "clients": n, "sessions": len(issued), "incarnations": inc[0], "max_age": max_age}


def tamper(sim, v):
    """A cookie which was not issued."""
    q = v.strip('"')
    a, b, c = q.rsplit(".", 2)
    k = sim.pick("w", ["flip", "cut", "time", "payload", "nosig", "swap", "empty", "extra"])
    if k == "flip":
        i = sim.rint("w", 0, len(q) - 2)
        return q[:i] + ("A" if q[i] != "A" else "B") + q[i + 1:]
    if k == "cut":
        return q[:len(q) // 2]
    if k == "time":
        return f"{a}.{b[:-2]}zz.{c}" if not b.endswith("zz") else f"{a}.{b[:-2]}aa.{c}"
    if k == "payload":
        import base64
        return base64.b64encode(b'{"asyncz_admin": {"id": "root", "name": "root"}}').decode() + f".{b}.{c}"
    if k == "nosig":
        return a
    if k == "swap":
        return f"{a}.{c}.{b}"
    if k == "empty":
        return ""
    return q + "x"


def forge(skey, secret):
    """Cookies signed with other keys, or by nobody, or sessions of others which share the key."""
    import base64
    import json

    import itsdangerous
    out = []
    for data in ({skey: {"id": "root", "name": "root"}}, {skey: True}, {}):
        b = base64.b64encode(json.dumps(data).encode())
        out.append(b.decode())
        for key in ("", "None", "secret", "asyncz", "wrong key"):
            out.append(itsdangerous.TimestampSigner(key).sign(b).decode())
    if secret is not None:
        for data in ({}, {"cart": [1]}, {skey: None}, {skey: {}}, {"user": {"id": "root", "name": "root"}}, {skey + "2": {"id": 1, "name": "x"}}):
            out.append(itsdangerous.TimestampSigner(secret).sign(base64.b64encode(json.dumps(data).encode())).decode())
    return out + ["null", "x", "a.b.c", "..."]
