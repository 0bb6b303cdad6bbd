"""C20 Clock steps and daylight-saving changes never cause early, lost or double runs."""
import datetime as dtm
import pickle
from zoneinfo import ZoneInfo

import pytz

from ..kernel import US
from ..refmodel import RZoneCron
from ..world import *  # noqa
from ..workload import *  # noqa

ID = "C20"
RUNS_QUICK = 2400
RUNS_THOROUGH = 120000
WALL_QUICK = 200
LEVEL = "exploration"
REAL = ["interval, cron and date triggers with zoneinfo and pytz zones, scheduler timers and wakeups, stores, executors"]
STUB = ["OS threads scheduling (baton), clock (steps and zone offset changes are simulated), selector",
        "redis server, mongo client+server (model), file system (model)"]


def ts(*a):
    return int(dtm.datetime(*a, tzinfo=UTC).timestamp()) * US


# (zone, transitions): instants at which the offset changes, and by how many minutes
ZONES = [
    ("Europe/Paris", [(ts(2031, 3, 30, 1), 60), (ts(2031, 10, 26, 1), -60)]),
    ("America/New_York", [(ts(2031, 3, 9, 7), 60), (ts(2031, 11, 2, 6), -60)]),
    ("Australia/Lord_Howe", [(ts(2031, 4, 5, 15), -30), (ts(2031, 10, 4, 15, 30), 30)]),
    ("America/Havana", [(ts(2031, 3, 9, 5), 60), (ts(2031, 11, 2, 5), -60)]),
]


def pick_zone(sim):
    name, trans = sim.pick("w", ZONES)
    at, shift = sim.pick("w", trans)
    use_pytz = sim.chance("w", 25)
    zone = ZoneInfo(name)
    for d in (-1, 1):
        assert dtm.datetime.fromtimestamp(at // US + d, zone) is not None
    before = dtm.datetime.fromtimestamp(at // US - 1, zone).utcoffset()
    after = dtm.datetime.fromtimestamp(at // US, zone).utcoffset()
    assert (after - before) == dtm.timedelta(minutes=shift), (name, at)
    return name, zone, (pytz.timezone(name) if use_pytz else zone), at, shift


def in_zone(us, tz):
    return from_us(us, tz)


def check_real(w, what, value):
    """The time exists in its zone and says the wall clock time the zone shows at that instant."""
    us = to_us(value.astimezone(UTC))
    back = from_us(us, value.tzinfo)
    if back.replace(tzinfo=None) != value.replace(tzinfo=None):
        w.fail("not_existing", f"{what}: {value.isoformat()} does not exist in its time zone "
                               f"(the instant shows {back.isoformat()})")
    return us


SECS = {"0": [0], "30": [30], "0,20": [0, 20], "*/15": [0, 15, 30, 45]}
MINS = {"*": None, "*/5": range(0, 60, 5), "*/7": range(0, 60, 7), "0": [0], "30": [30], "10,50": [10, 50],
        "59": [59], "15-20": range(15, 21)}
HOURS = {"*": None, "0": [0], "1": [1], "2": [2], "3": [3], "0-4": range(0, 5), "1,4": [1, 4]}


def gen_cron(sim, zone, tz, explicit_tz, hours, start=None, end=None, jitter=None, secs=("0", "0", "30", "0,20", "*/15")):
    s, m, h = sim.pick("w", list(secs)), sim.pick("w", list(MINS)), sim.pick("w", hours)
    kw = {}
    if start is not None:
        kw["start_at"] = from_us(start, tz)
    if end is not None:
        kw["end_at"] = from_us(end, tz)
    t = CronTrigger(second=s, minute=m, hour=h, timezone=tz if explicit_tz else None, jitter=jitter, **kw)
    mins = None if MINS[m] is None else set(MINS[m])
    hrs = None if HOURS[h] is None else set(HOURS[h])
    return t, RZoneCron(zone, SECS[s], mins, hrs, end=end, start=start), f"cron {h}:{m}:{s}"


def gen_interval(sim, tz, explicit_tz, base, jitter=None, steps=(60, 420, 1800, 3600, 45, 5400, 86400), span=7200):
    step = sim.pick("w", list(steps))
    off = sim.pick("w", [0, 30, 1, -60, -5000, 600, 3600, -100000])
    frac = sim.pick("w", [0, 0, 500_000, 1])
    start = base // US * US + off * US + frac
    end = start + sim.rint("w", 0, span) * US if sim.chance("w", 25) else None
    kw = {"end_at": from_us(end, tz)} if end is not None else {}
    t = IntervalTrigger(seconds=step, start_at=from_us(start, tz), timezone=tz if explicit_tz else None,
                        jitter=jitter, **kw)
    return t, RInterval(start, step * US, end), f"every {step}s from {off}"


# ------------------------------------------------------------------ triggers alone, across a change
def run_chain(sim, w):
    name, zone, tz, at, shift = pick_zone(sim)
    n = 0
    for _ in range(sim.rint("w", 2, 6)):
        base = at - sim.pick("w", [600, 3 * 3600, 3660, 26 * 3600, 30, 1, 0, 5400]) * US \
            - sim.pick("w", [0, 0, 1, 500_000])
        now = base
        jitter = sim.pick("w", [None, None, None, 1, 30, 5000])
        explicit = sim.chance("w", 60)
        if sim.chance("w", 50):
            start = sim.pick("w", [None, None, at - 900 * US, at + 900 * US, at])
            end = sim.pick("w", [None, None, None, at + 1800 * US, at + 5400 * US])
            trig, ref, desc = gen_cron(sim, zone, tz, explicit, list(HOURS), start, end, jitter)
        else:
            trig, ref, desc = gen_interval(sim, tz, explicit, base, jitter)
        desc = f"{desc} in {tz} ({type(tz).__name__}) around {from_us(at, zone).isoformat()}"
        if sim.chance("w", 30):
            trig = pickle.loads(pickle.dumps(trig))
        prev = None
        # wall times which are skipped may be made up for right after the gap
        gap = (at, at + shift * 60 * US) if shift > 0 and ref.kind == "cron" and ref.h is not None else None
        for _k in range(sim.rint("w", 3, 40)):
            asked = from_us(now, sim.pick("w", [UTC, tz]))
            given = None if prev is None else from_us(prev, sim.pick("w", [tz, tz, UTC]))
            got = trig.get_next_trigger_time(tz, given, asked)
            want = ref.first(now) if prev is None else ref.after(prev)
            n += 1
            what = f"{desc}: next after {given} (now {asked})"
            if got is None:
                # a jittered interval run beyond the end date is no run any more
                if want is not None and not (jitter and ref.kind == "interval" and ref.end is not None
                                             and want + jitter * US > ref.end):
                    w.fail("chain_ended", f"{what}: nothing, expected {from_us(want, zone)}")
                break
            us = check_real(w, what, got)
            if prev is not None and us <= prev:
                w.fail("not_after", f"{what}: {got} is not later")
            if prev is None and jitter is None and us < now and ref.kind != "date":
                w.fail("past", f"{what}: {got} has passed")
            made_up = gap is not None and gap[0] <= us < gap[1] + (jitter or 0) * US \
                and (want is None or us < want)
            if want is None and not made_up:
                w.fail("chain_more", f"{what}: {got}, but the schedule has ended")
            if made_up:
                sim.probe("made_up")
            elif jitter is None:
                if us != want:
                    w.fail("chain", f"{what}: {got}, expected {from_us(want, zone)}")
            elif not want <= us <= want + jitter * US:
                w.fail("jitter", f"{what}: {got} is not within {jitter} s after {from_us(want, zone)}")
            prev = us
            if prev > at + 30 * 3600 * US:
                break
            # the pass which asks is never before the run it follows
            now = prev + sim.pick("w", [0, 1, US, 600 * US, 4000 * US])
    sim.probe("queries", n)
    return {"mode": "chain", "zone": name, "n": n}


# ------------------------------------------------------------------ a scheduler runs across a change
def run_dst(sim, w):
    name, zone, tz, at, shift = w.zone
    stores = {"default": w.make_store(sim.wpick("w", STORES), where="a")}
    kind = sim.pick("w", ["asyncio", "thread"])
    mode = sim.wpick("w", MODES)
    h = Host(w, mode, stores=stores, executors={"default": w.make_executor(kind)},
             timezone=tz if tz is not zone or sim.chance("w", 50) else name)
    style = sim.pick("w", [0, 0, 1])
    sim.configure_preemption(style, *((0, 14) if style else ()), stalls=False)
    base = w.wall()
    specs = []
    for i in range(sim.rint("w", 1, 4)):
        explicit = sim.chance("w", 50)
        sp = Spec(id=f"t{i}")
        k = sim.pick("w", ["cron", "interval", "interval", "date"])
        if k == "cron":
            end = sim.pick("w", [None, None, None, at + 1800 * US])
            hours = ["*", "*", "*", "0-4", "1,4"] if shift < 0 else ["*", "*", "*", "0", "1", "3", "1,4"]
            sp.trigger, sp.ref, sp.desc = gen_cron(sim, zone, tz, explicit, hours, None, end, secs=("0", "0", "30"))
        elif k == "interval":
            sp.trigger, sp.ref, sp.desc = gen_interval(sim, tz, explicit, base, steps=(60, 420, 1800, 3600, 2700))
        else:
            t = at + sim.pick("w", [-1, 0, 1, 1800, -1800, 3599]) * US
            sp.trigger, sp.ref, sp.desc = DateTrigger(run_at=from_us(t, tz), timezone=tz), RDate(t), "date"
        sp.coalesce = sim.pick("w", [False, True])
        specs.append(sp)
    early = sim.rint("w", 0, len(specs))
    for sp in specs[:early]:
        sp.add(h.sched, w.wall)
    lo = w.wall()
    h.start()
    hi = w.wall()
    started = sim.mono
    for sp in specs[:early]:
        sp.t_lo, sp.t_hi = lo, hi
    for sp in specs[early:]:
        sim.sleep(sim.pick("w", [0, 300_000, 40 * US]))
        sp.add(h.sched, w.wall)
    span = at - w.wall() + sim.pick("w", [3700, 5500, 7300]) * US
    infos_at = sim.rint("w", 1, 4)
    for k in range(4):
        sim.sleep(span // 4)
        if k == infos_at - 1:
            infos = h.sched.get_task_infos(sort_by="next_run_time")
            order = [to_us(x.next_run_time.astimezone(UTC)) for x in infos if x.next_run_time]
            if order != sorted(order):
                w.fail("listing", f"tasks sorted by next run time are listed as {infos}")
            up = h.sched.get_scheduler_info().uptime_seconds
            if abs(up - (sim.mono - started) / US) > 1:
                w.fail("uptime", f"uptime is {up} s after {(sim.mono - started) / US} s")
    t_end = quiesce(w, h, 3)
    nows = {sp.id: stored_next(h.sched, sp) for sp in specs}
    for sp in specs:
        check_schedule(w, sp, t_end, nows[sp.id], exact_late=200_000 if style == 0 else 2 * US)
    passes = len(w.due_log)
    if passes > 3 * len(w.subs) + 60:
        w.fail("spinning", f"{passes} passes for {len(w.subs)} hand-overs")
    sim.probe("attempts", len(w.subs))
    sim.fault("offset_change")
    h.shutdown(wait=False)
    h.stop_app()
    return {"mode": f"dst {mode}", "zone": str(tz), "tasks": [repr(s) for s in specs], "attempts": len(w.subs)}


# ------------------------------------------------------------------ the clock is stepped
def run_steps(sim, w):
    sim.max_steps = 10_000_000
    name, zone, tz, at, shift = w.zone
    stores = {"default": w.make_store(sim.wpick("w", STORES), where="a")}
    kind = sim.pick("w", ["asyncio", "thread"])
    mode = sim.wpick("w", MODES)
    kw = {}
    h = Host(w, mode, stores=stores, executors={"default": w.make_executor(kind)}, timezone=tz, **kw)
    style = style_for_run(sim)
    specs = []
    for i in range(sim.rint("w", 1, 4)):
        sp = Spec(id=f"t{i}")
        k = sim.pick("w", ["cron", "interval", "date"])
        base = w.wall()
        if k == "cron":
            sp.trigger, sp.ref, sp.desc = gen_cron(sim, zone, tz, sim.chance("w", 50), ["*"])
        elif k == "interval":
            sp.trigger, sp.ref, sp.desc = gen_interval(sim, tz, sim.chance("w", 50), base, steps=(7, 30, 60, 420, 20))
        else:
            t = base + sim.pick("w", [1, 30, 300]) * US
            sp.trigger, sp.ref, sp.desc = DateTrigger(run_at=from_us(t, tz), timezone=tz), RDate(t), "date"
        sp.coalesce = sim.pick("w", [False, True])
        specs.append(sp)
    early = sim.rint("w", 1, len(specs))
    for sp in specs[:early]:
        sp.add(h.sched, w.wall)
    lo = w.wall()
    h.start()
    hi = w.wall()
    for sp in specs[:early]:
        sp.t_lo, sp.t_hi = lo, hi
    steps = []      # (seq, mono, wall before, wall after)
    queue = list(specs[early:])
    total = 0
    for _ in range(sim.rint("w", 1, 5)):
        sim.sleep(sim.pick("w", [100_000, US, 7 * US, 30 * US, 59_900_000]))
        if queue and sim.chance("w", 50):
            queue.pop().add(h.sched, w.wall)
        d = sim.pick("w", [300_000, US, 5 * US, 30 * US, 120 * US, 600 * US, 1])
        d = d if sim.chance("w", 50) else -d
        before = w.wall()
        sim.wall_off += d
        steps.append((sim.next_seq(), sim.mono, before, before + d))
        sim.fault("clock_step_forward" if d > 0 else "clock_step_back")
        sim.note("STEP", d)
        total += abs(d)
    for sp in queue:
        sp.add(h.sched, w.wall)
    # the longest timer armed until now: the longest wait of a task plus what the clock was moved by
    sim.sleep(5 * US)
    calm_down(sim)
    sim.sleep(total + 3700 * US)
    t_end = quiesce(w, h, 3)

    def early_ok(a, t):
        # a pass reads the clock once; a step back between that and the hand-over is no early run
        dues = [q for q, alias, _ in w.due_log if q <= a.s0]
        begin = dues[-1] if dues else 0
        for q, mono, b, after in steps:
            if q <= a.s0 and t <= b and (q >= begin or style):
                if style == 0 or mono >= a_mono(a) - 20 * US:
                    return True
        return False

    def a_mono(a):
        # the mono clock at the hand-over: undo the steps after it
        off = sim.wall_off
        for q, _m, b, after in reversed(steps):
            if q > a.s0:
                off -= after - b
        return a.t0 - off

    nows = {sp.id: stored_next(h.sched, sp) for sp in specs}
    for sp in specs:
        check_schedule(w, sp, t_end, nows[sp.id], early_ok=early_ok)
    sim.probe("attempts", len(w.subs))
    h.shutdown(wait=False)
    h.stop_app()
    return {"mode": f"steps {mode}", "tasks": [repr(s) for s in specs], "attempts": len(w.subs),
            "steps": [(b, a - b) for _, _, b, a in steps]}


def run(sim):
    m = sim.wpick("w", [(40, "chain"), (35, "dst"), (35, "steps")])
    if m != "chain":
        zone = pick_zone(sim)
        at = zone[3]
        lead = sim.pick("w", [20, 600, 1860, 3700, 5500]) if m == "dst" else sim.pick("w", [5, 60, 700, 7200])
        sim.wall_off = at - lead * US - sim.pick("w", [0, 250_000]) - sim.mono
    w = World(sim, ID)
    if m != "chain":
        w.zone = zone
    info = {"chain": run_chain, "dst": run_dst, "steps": run_steps}[m](sim, w)
    w.close()
    return info
