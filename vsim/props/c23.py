"""C23 Combined triggers fire exactly when their parts say and always answer."""
import pickle

from asyncz.triggers import AndTrigger, OrTrigger

from .. import refmodel
from ..kernel import US, Violation
from ..refmodel import RAnd, ROr
from ..world import *  # noqa
from ..workload import *  # noqa
from .c01 import REAL, STUB

ID = "C23"
RUNS_QUICK = 4000
RUNS_THOROUGH = 250000
WALL_QUICK = 200
LEVEL = "exploration"

ZONES = ["UTC", "UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo"]
ASKS_LIMIT = 100_000     # questions to the parts for one answer


class Meter:
    """Counts how often parts are asked while a combined trigger answers one question."""

    def __init__(self):
        self.depth = {}
        self.n = {}
        self.world = None
        self.most = 0

    def install(self):
        for cls in (AndTrigger, OrTrigger):
            def top(trig, *a, _f=cls.get_next_trigger_time, **k):
                w = self.world
                me = w.sim.cur
                outer = self.depth.get(me, 0)
                if not outer:
                    self.n[me] = 0
                self.depth[me] = outer + 1
                try:
                    return _f(trig, *a, **k)
                finally:
                    self.depth[me] = outer
                    self.most = max(self.most, self.n[me])
            cls.get_next_trigger_time = top
        for cls in (DateTrigger, IntervalTrigger, CronTrigger):
            def part(trig, *a, _f=cls.get_next_trigger_time, **k):
                w = self.world
                if w is not None and self.depth.get(w.sim.cur):
                    self.n[w.sim.cur] += 1
                    if self.n[w.sim.cur] > ASKS_LIMIT:
                        w.viol("endless", f"a combined trigger asked its parts more than {ASKS_LIMIT} times for one "
                                          "answer")
                        raise Violation("C23.endless", "endless search for a common time")
                return _f(trig, *a, **k)
            cls.get_next_trigger_time = part


METER = None


def meter(w):
    global METER
    if METER is None:
        METER = Meter()
        METER.install()
    METER.world = w
    METER.depth, METER.n, METER.most = {}, {}, 0
    return METER


def aligned(sim, now):
    """A part on whole seconds, so that parts meet."""
    kind = sim.pick("w", ["cron", "interval", "interval", "date"])
    sec = now // US
    tz = sim.pick("w", ZONES)
    if kind == "date":
        at = (sec + sim.pick("w", [3, 5, 10, 20, 45])) * US
        return DateTrigger(run_at=from_us(at), timezone=tz), RDate(at), f"date+{at // US - sec}"
    if kind == "interval":
        step = sim.pick("w", [2, 1, 3, 4, 5, 7])
        off = sim.pick("w", [0, 1, 2, 5, -7, 11])
        e = sim.pick("w", [None, None, 15, 40])
        start = (sec + off) * US
        end = None if e is None else (sec + off + e) * US
        return (IntervalTrigger(seconds=step, start_at=from_us(start), end_at=from_us(end) if end else None, timezone=tz),
                RInterval(start, step * US, end), f"every{step}+{off}" + (f"..{e}" if e else ""))
    shape = sim.pick("w", ["*/5", "*/2", "*", "*/3", "10,40", "0"])
    secs = {"*/5": range(0, 60, 5), "*/2": range(0, 60, 2), "*/3": range(0, 60, 3), "0": [0], "10,40": [10, 40],
            "*": range(60)}[shape]
    e = sim.pick("w", [None, None, None, 25])
    st = sim.pick("w", [None, None, 8])
    end = None if e is None else (sec + e) * US
    start = None if st is None else (sec + st) * US
    return (CronTrigger(second=shape, timezone=tz, end_at=from_us(end) if end else None,
                        start_at=from_us(start) if start else None), RCron(list(secs), end=end, start=start),
            f"cron {shape}" + (f"..{e}" if e else "") + (f"from{st}" if st else ""))


def endless(ref, now):
    """An and-trigger whose parts go on but never meet again (the real search then takes long)."""
    if ref.kind == "or":
        return any(endless(p, now) for p in ref.parts)
    if ref.kind != "and":
        return False
    if any(endless(p, now) for p in ref.parts):
        return True
    far = now + 200 * US
    return all(p.instants(far, far + RAnd.HORIZON) for p in ref.parts) and not ref.instants(far, far + RAnd.HORIZON)


def combo(sim, now, depth=0, allow_endless=False):
    while True:
        k = sim.pick("w", ["or", "and"])
        parts = []
        for _ in range(sim.pick("w", [2, 2, 1, 3])):
            if depth == 0 and sim.chance("w", 20):
                parts.append(combo(sim, now, 1, allow_endless))
            elif k == "or" and sim.chance("w", 30):
                parts.append(gen_trigger(sim, now, past=False))
            else:
                parts.append(aligned(sim, now))
        ref = (ROr if k == "or" else RAnd)([p[1] for p in parts])
        if not allow_endless and endless(ref, now):
            continue
        trig = (OrTrigger if k == "or" else AndTrigger)([p[0] for p in parts])
        return trig, ref, f"{k}[{', '.join(p[2] for p in parts)}]"


def direct(sim):
    """A trigger alone: a chain of questions and answers."""
    w = World(sim, ID)
    m = meter(w)
    now = w.wall() // US * US + sim.pick("w", [0, 1, 500_000])
    hard = sim.chance("w", 4)
    if hard:
        sim.max_steps = 40_000_000
    trig, ref, desc = combo(sim, now, allow_endless=hard)
    tz = dtm.timezone.utc
    if sim.chance("w", 40):
        import zoneinfo
        tz = zoneinfo.ZoneInfo(sim.pick("w", ZONES))
    prev = None
    n = 0
    for _ in range(sim.rint("w", 3, 25)):
        if sim.chance("w", 25):
            trig = pickle.loads(pickle.dumps(trig))
        lag = sim.pick("w", [0, 0, 3 * US, 40 * US, -1 * US])
        if prev is not None:
            now = prev + lag
        p = None if prev is None else from_us(prev).astimezone(tz)
        r = trig.get_next_trigger_time(tz, p, from_us(now).astimezone(tz))
        n += 1
        want = ref.first(now) if prev is None else ref.after(prev)
        got = None if r is None else to_us(r)
        if got != want:
            w.fail("next", f"{desc}: after {w.rel(prev)} at {w.rel(now)} it names {w.rel(got)}, its parts say "
                           f"{w.rel(want)}")
        if got is None:
            break
        prev = got
        if sim.chance("w", 15):      # the run times of a period were skipped
            prev += sim.pick("w", [1, 1 * US, 17 * US])
    sim.probe("answers", n)
    sim.probe("disjoint", int(hard and endless(ref, now)))
    sim.probe("searches_over_1000", int(m.most > 1000))
    w.close()
    return {"trigger": desc, "answers": n}


def run(sim):
    if sim.chance("w", 35):
        return direct(sim)
    w = World(sim, ID)
    meter(w)
    aliases = ["default", "b"][:sim.pick("w", [1, 1, 2])]
    stores = {a: w.make_store(sim.wpick("w", STORES), where=a) for a in aliases}
    ek = {"default": sim.wpick("w", EXECS)}
    inline = ek["default"] == "debug"
    h = Host(w, sim.wpick("w", MODES), stores=stores, executors={"default": w.make_executor(ek["default"])})
    w.default_plan = Plan((0, 20_000) if inline else (0, 20_000, 700_000))
    specs = []
    for i in range(sim.pick("w", [1, 2, 3])):
        sp = gen_spec(sim, i, w.wall(), ek, aliases, max_choices=(50,), graces=(None, 30), explicit=False)
        sp.trigger, sp.ref, sp.desc = combo(sim, w.wall())
        specs.append(sp)
        sp.add(h.sched, w.wall)
    if sim.chance("w", 25):          # a backlog
        sim.sleep(sim.pick("w", [4 * US, 13 * US]))
    style = style_for_run(sim, line=25)
    lo = w.wall()
    h.start()
    for sp in specs:
        sp.t_lo, sp.t_hi = lo, w.wall()
    if sim.chance("w", 15):
        sim.sleep(3 * US)
        h.sched.pause()
        sim.sleep(sim.rint("w", 1, 6) * US)
        h.sched.resume()
        style = 1
    late = None
    if sim.chance("w", 40):
        sim.sleep(sim.pick("w", [300_000, 2_700_000]))
        late = gen_spec(sim, 9, w.wall(), ek, aliases, max_choices=(50,), graces=(None,), explicit=False)
        late.trigger, late.ref, late.desc = combo(sim, w.wall())
        specs.append(late)
        late.add(h.sched, w.wall)
    sim.sleep(sim.pick("w", [15, 8, 30, 50]) * US)
    t_end = quiesce(w, h, 3)
    nows = {sp.id: stored_next(h.sched, sp) for sp in specs}
    for sp in specs:
        check_schedule(w, sp, t_end, nows[sp.id], horizon_slack=20 * US if inline else US,
                       exact_late=100_000 if style == 0 and not inline else None)
    sim.probe("attempts", len(w.subs))
    sim.probe("ended", sum(n == "gone" for n in nows.values()))
    h.shutdown(wait=False)
    h.stop_app()
    w.close()
    return {"tasks": [repr(s) for s in specs], "attempts": len(w.subs)}
