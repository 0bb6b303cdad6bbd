"""Seeded search over simulated runs: workers, evidence, minimisation, replay."""
from __future__ import annotations

import faulthandler
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import signal
import sys
import time as _time
import traceback

from . import boot, kernel

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "out"))
EVID = os.path.join(HERE, "evidence")
_mono = _time.monotonic
CPU_LIMIT = 12    # processor seconds a single run may use (they take far below one)


def load(pid):
    return importlib.import_module(f"vsim.props.{pid.lower()}")


class Result:
    __slots__ = ("viols", "hash", "sched", "steps", "simtime", "faults", "probes", "switches", "preempts",
                 "stalls", "rec", "log", "info", "harness", "nontrivial", "wall", "states")


def in_repo(tb):
    root = os.path.realpath(boot.REPO) + "/asyncz/"
    sites = []
    while tb is not None:
        co = tb.tb_frame.f_code
        if co.co_filename.startswith(root):
            sites.append(co.co_name)
        tb = tb.tb_next
    return sites


def execute(mod, seed, replay=None, keep_log=False, cfg=None):
    """One simulated run."""
    pid = mod.ID
    gc.disable()
    sim = kernel.Sim(seed=seed, replay=replay, max_steps=getattr(mod, "MAX_STEPS", 1_500_000))
    sim.keep_log = keep_log
    sim.tier = os.environ.get("VERIF_TIER", "quick")
    random.seed(12345)
    logging.root.manager._clear_cache()
    saved_env = dict(os.environ)
    r = Result()
    r.harness = None
    r.info = None
    t0 = _mono()
    signal.signal(signal.SIGPROF, lambda *_: sim.watchdog())
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 2)
    try:
        try:
            r.info = sim.run(lambda: mod.run(sim))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except kernel.Violation as v:
        sim.violate(v.kind, v.msg)
    except kernel.SimDeadlock:
        sim.violate(f"{pid}.deadlock", "no thread can ever run again: " + sim.last_stacks)
    except kernel.SimHang:
        sim.violate(f"{pid}.hang", "step budget exhausted: " + sim.last_stacks)
    except kernel.SimTimeLimit:
        sim.violate(f"{pid}.timeout", "simulated time limit passed: " + sim.last_stacks)
    except kernel.SimKilled:
        r.harness = "main thread killed"
    except BaseException as e:  # noqa
        sites = in_repo(e.__traceback__)
        txt = "".join(traceback.format_exception(e)[-14:])
        if sites:
            sim.violate(f"{pid}.unexpected", f"{type(e).__name__}: {e} through {' < '.join(reversed(sites))}\n{txt}")
        else:
            r.harness = txt
    if sim.fatal is not None and not any(v[0] == f"{pid}.{sim.fatal[0]}" for v in sim.violations):
        sim.violate(f"{pid}.{sim.fatal[0]}", sim.fatal[1])
    for name, tn, txt in sim.thread_errors:
        if "/asyncz/" in txt and boot.REPO in txt:
            sim.violate(f"{pid}.thread_error", f"uncaught {tn} in {name}\n{txt}")
        else:
            r.harness = r.harness or f"thread {name}: {txt}"
    if os.environ != saved_env:
        for k in list(os.environ):
            if k not in saved_env:
                del os.environ[k]
        for k, v in saved_env.items():
            os.environ[k] = v
    r.wall = _mono() - t0
    r.viols = sim.violations
    r.hash = sim.log_hash.hexdigest()
    r.sched = sim.sched_hash.hexdigest()[:16]
    r.steps, r.simtime = sim.steps, sim.mono - 1000 * kernel.US
    r.faults, r.probes = sim.faults, sim.probes
    r.switches, r.preempts, r.stalls = sim.switches, sim.preempts, sim.stall_count
    r.rec, r.log = sim.rec, sim.log
    r.states = sim.state_sigs
    gc.enable()
    return r


def seed_for(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{pid}/{i}".encode()).digest()[:8], "big")


def warmup(mod):
    for i in range(getattr(mod, "WARMUP", 6)):
        execute(mod, seed_for("warm", mod.ID, i))
    gc.collect()


# ------------------------------------------------------------------ known findings
def known_findings():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def match_known(pid, kind, msg, known):
    for k in known:
        if k.get("status") != "known" or k["property"] != pid:
            continue
        if k["kind"] == kind and all(s in msg for s in k.get("contains", [])):
            return k
    return None


# ------------------------------------------------------------------ workers
def worker(mod, base_seed, k, n, runs, deadline, wfd):
    out = os.fdopen(wfd, "w")
    agg = {"runs": 0, "steps": 0, "simtime": 0, "faults": {}, "probes": {}, "switches": 0, "preempts": 0,
           "stalls": 0, "nontrivial": 0, "det_checked": 0, "det_bad": 0, "info": {}}
    scheds = set()
    hashes = set()
    states = set()
    samples = []
    stopped = ""
    i = k
    nv = 0
    while i < runs:
        if _mono() > deadline:
            stopped = "wall"
            break
        seed = seed_for(base_seed, mod.ID, i)
        faulthandler.dump_traceback_later(150, exit=True)
        r = execute(mod, seed)
        faulthandler.cancel_dump_traceback_later()
        agg["runs"] += 1
        if r.harness:
            out.write(json.dumps({"harness": r.harness, "seed": seed, "i": i}) + "\n")
            out.flush()
            if nv > 5:
                break
            nv += 1
        agg["steps"] += r.steps
        agg["simtime"] += r.simtime
        agg["switches"] += r.switches
        agg["preempts"] += r.preempts
        agg["stalls"] += r.stalls
        for d, s in (("faults", r.faults), ("probes", r.probes)):
            for a, b in s.items():
                agg[d][a] = agg[d].get(a, 0) + b
        if r.hash not in hashes:
            hashes.add(r.hash)
            if r.steps > 50 and r.switches > 2:
                agg["nontrivial"] += 1
        scheds.add(r.sched)
        if len(states) < 200000:
            states |= r.states
        if len(samples) < 1 and r.info:
            samples.append({"seed": seed, "simulated_s": round(r.simtime / 1e6, 3), "switches": r.switches,
                            "summary": r.info})
        if r.viols:
            out.write(json.dumps({"viol": r.viols, "seed": seed, "i": i}) + "\n")
            out.flush()
            nv += 1
            if nv >= 3:
                break
        elif (i // n) % getattr(mod, "DET_EVERY", 60) == 1:
            r2 = execute(mod, seed)
            agg["det_checked"] += 1
            if r2.hash != r.hash:
                agg["det_bad"] += 1
                out.write(json.dumps({"det": [seed, i]}) + "\n")
        i += n
        if agg["runs"] % 16 == 0:
            gc.collect()
    out.write(json.dumps({"done": agg, "scheds": sorted(scheds), "hashes": [h[:16] for h in hashes],
                          "states": sorted(states), "samples": samples, "stopped": stopped}) + "\n")
    out.close()


def fork_worker(fn):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            fn(w)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return pid, r


# ------------------------------------------------------------------ minimise
def same_kind(r, kind):
    return r.harness is None and any(v[0] == kind for v in r.viols)


def shrink(mod, seed, rec, kind, budget_s=40, max_runs=600):
    t_end = _mono() + budget_s
    best = {k: list(v) for k, v in rec.items()}
    runs = [0]

    def norm(c):
        out = {}
        for k, v in c.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            out[k] = v
        return out

    best = norm(best)

    def attempt(c):
        if _mono() > t_end or runs[0] >= max_runs:
            return None
        runs[0] += 1
        r = execute(mod, seed, replay=c)
        if runs[0] % 16 == 0:
            gc.collect()
        return r if same_kind(r, kind) else None

    def take(r, c):
        nonlocal best
        n2 = norm(r.rec)
        # keep whichever is smaller
        best = n2 if sum(map(len, n2.values())) <= sum(map(len, c.values())) else norm(c)

    order = [s for s in ("s", "f", "x", "w", "u") if s in best] + [s for s in best if s not in "sfxwu"]
    for stream in order:          # whole-stream zeroing
        c = dict(best)
        c[stream] = []
        r = attempt(c)
        if r:
            take(r, c)
    improved = True
    while improved and _mono() < t_end and runs[0] < max_runs:
        improved = False
        for stream in order:
            # delete / zero blocks
            size = max(1, len(best.get(stream, ())) // 2)
            while size >= 1 and _mono() < t_end and runs[0] < max_runs:
                pos = 0
                while pos < len(best.get(stream, ())):
                    v = best[stream]
                    hit = False
                    for mode in (("zero", "del") if stream in ("s", "f", "x") else ("del", "zero")):
                        if mode == "zero":
                            if not any(v[pos:pos + size]):
                                continue
                            nv = v[:pos] + [0] * len(v[pos:pos + size]) + v[pos + size:]
                        else:
                            nv = v[:pos] + v[pos + size:]
                        c = dict(best)
                        c[stream] = nv
                        r = attempt(c)
                        if r:
                            before = (sum(map(len, best.values())), sum(map(sum, best.values())))
                            take(r, c)
                            after = (sum(map(len, best.values())), sum(map(sum, best.values())))
                            if after < before:
                                improved = True
                                hit = True
                            break
                        if runs[0] >= max_runs or _mono() > t_end:
                            break
                    if not hit:
                        pos += size
                    if runs[0] >= max_runs or _mono() > t_end:
                        break
                size //= 2
        # lower values
        for stream in order:
            for pos in range(len(best.get(stream, ()))):
                if pos >= len(best[stream]) or runs[0] >= max_runs or _mono() > t_end:
                    break
                v = best[stream][pos]
                for nv in (v // 2, v - 1):
                    if 0 < nv < v:
                        c = dict(best)
                        c[stream] = best[stream][:pos] + [nv] + best[stream][pos + 1:]
                        r = attempt(c)
                        if r:
                            take(r, c)
                            improved = True
                            break
    return best, runs[0]


def minimise_child(mod, item, wfd, budget):
    """Runs in a forked child: minimise and produce the replay document."""
    kind = item["viol"][0][0]
    seed = item["seed"]
    r0 = execute(mod, seed)
    doc = {"property": mod.ID, "seed": seed, "kind": kind}
    if not same_kind(r0, kind):
        doc.update(streams={}, reproduced=False, message=item["viol"][0][1], note="original seed did not reproduce "
                   "in a second execution; replay runs the seed itself", use_seed=True)
    else:
        try:
            best, n = shrink(mod, seed, r0.rec, kind, budget_s=budget)
        except BaseException:
            traceback.print_exc()
            best, n = r0.rec, -1
        r = execute(mod, seed, replay=best, keep_log=True)
        if not same_kind(r, kind):
            best = r0.rec
            r = execute(mod, seed, replay=best, keep_log=True)
        msg = next((v[1] for v in r.viols if v[0] == kind), item["viol"][0][1])
        doc.update(streams=best, reproduced=True, message=msg, history_hash=r.hash, minimise_runs=n,
                   choices_before=sum(len(v) for v in r0.rec.values()),
                   choices_after=sum(len(v) for v in best.values()),
                   faults=r.faults, simulated_us=r.simtime, trace=r.log[-400:])
    with os.fdopen(wfd, "w") as f:
        f.write(json.dumps(doc))


def read_all(fd):
    with os.fdopen(fd) as f:
        return f.read()


def minimise(mod, item, budget=40):
    pid, r = fork_worker(lambda w: minimise_child(mod, item, w, budget))
    data = read_all(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


# ------------------------------------------------------------------ check
def check(pid, tier, base_seed, jobs=None, runs=None, wall=None):
    t0 = _mono()
    boot.boot()
    mod = load(pid)
    runs = runs or (mod.RUNS_THOROUGH if tier == "thorough" else mod.RUNS_QUICK)
    wall = wall or (getattr(mod, "WALL_THOROUGH", 3600) if tier == "thorough" else getattr(mod, "WALL_QUICK", 240))
    jobs = jobs or min(8, len(os.sched_getaffinity(0)))
    warmup(mod)
    deadline = _mono() + wall
    procs = []
    for k in range(jobs):
        procs.append(fork_worker(lambda w, k=k: worker(mod, base_seed, k, jobs, runs, deadline, w)))
    # read all pipes
    import selectors
    sel = selectors.SelectSelector()
    bufs = {}
    for p, r in procs:
        sel.register(r, selectors.EVENT_READ, p)
        bufs[r] = b""
    hard = _mono() + wall + 120
    open_fds = {r for _, r in procs}
    killed = False
    while open_fds:
        left = hard - _mono()
        if left <= 0 and not killed:
            killed = True
            for p, _ in procs:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            hard = _mono() + 30
        for key, _ in sel.select(max(0.1, min(left, 5))):
            d = os.read(key.fd, 1 << 16)
            if d:
                bufs[key.fd] += d
                if b'"viol"' in d and not killed:
                    hard = min(hard, _mono() + 100)
            else:
                sel.unregister(key.fd)
                open_fds.discard(key.fd)
                os.close(key.fd)
    codes = []
    for p, _ in procs:
        _, st = os.waitpid(p, 0)
        codes.append(st)
    viols, harness, dones, dets = [], [], [], []
    for r, b in bufs.items():
        for line in b.decode().splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "viol" in d:
                viols.append(d)
            elif "harness" in d:
                harness.append(d)
            elif "done" in d:
                dones.append(d)
            elif "det" in d:
                dets.append(d["det"])
    tot = {"runs": 0, "steps": 0, "simtime": 0, "switches": 0, "preempts": 0, "stalls": 0,
           "det_checked": 0, "det_bad": 0, "faults": {}, "probes": {}}
    scheds, hashes, states, samples = set(), set(), set(), []
    stopped = set()
    for d in dones:
        a = d["done"]
        for kk in ("runs", "steps", "simtime", "switches", "preempts", "stalls", "det_checked", "det_bad"):
            tot[kk] += a[kk]
        for kk in ("faults", "probes"):
            for x, y in a[kk].items():
                tot[kk][x] = tot[kk].get(x, 0) + y
        scheds.update(d["scheds"])
        hashes.update(d["hashes"])
        states.update(d["states"])
        samples.extend(d["samples"])
        if d["stopped"]:
            stopped.add(d["stopped"])
    # ---- violations
    known = known_findings()
    viols.sort(key=lambda v: v["i"])
    new, old = [], {}
    for v in viols:
        fresh = [x for x in v["viol"] if not match_known(pid, x[0], x[1], known)]
        for x in v["viol"]:
            k = match_known(pid, x[0], x[1], known)
            if k:
                old[k["id"]] = k
        if fresh:
            v["viol"] = fresh
            new.append(v)
    for k in known:
        if k.get("status") == "known" and k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    reported = 0
    seen = set()
    os.makedirs(OUT, exist_ok=True)
    for v in new:
        kind = v["viol"][0][0]
        if kind in seen:
            continue
        seen.add(kind)
        if reported >= 3:
            break
        doc = minimise(mod, v, budget=30 if tier == "quick" else 120)
        if doc is None:
            doc = {"property": pid, "seed": v["seed"], "kind": kind, "use_seed": True, "streams": {},
                   "message": v["viol"][0][1]}
        path = os.path.join(OUT, f"{pid}-{hashlib.sha256((kind + str(v['seed'])).encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  kind={kind} seed={v['seed']} reproduced={doc.get('reproduced')}")
        print("  " + str(doc.get("message", ""))[:1500].replace("\n", "\n  "))
        reported += 1
        rc = 1
    wall_s = _mono() - t0
    if harness:
        print("HARNESS ERROR:", harness[0]["harness"], "seed", harness[0]["seed"])
        rc = rc or 2
    if rc == 0 and (len(dones) < jobs or killed):
        print("HARNESS ERROR: a worker did not finish", codes)
        rc = 2
    if dets:
        print("WARNING: nondeterministic runs:", dets[:5])
    per_h = 3600 / max(wall_s, 0.001)
    ev = {
        "property": pid, "tier": tier, "seed": base_seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated run: workload, faults and schedule all drawn from a seed "
                    "derived from (VERIF_SEED, property, index). Distinct = different SHA-256 of the complete event "
                    "history (every recorded operation, event and fault with its virtual time and thread). " +
                    getattr(mod, "RULE", ""),
            "samples": samples[:3] or [{"seed": seed_for(base_seed, pid, 0)}],
            "runs_per_hour": int(tot["runs"] * per_h),
            "seeds_per_hour": int(tot["runs"] * per_h),
            "simulated_seconds": round(tot["simtime"] / 1e6, 1),
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of (thread switched to, step of the thread switched from)",
            "distinct_states": len(states),
            "state_measure": getattr(mod, "STATES", "property specific state signatures sampled at operation ends"),
            "baton_switches": tot["switches"], "preemptions": tot["preempts"], "stalls": tot["stalls"],
            "scheduler_steps": tot["steps"],
            "faults_injected": tot["faults"],
            "probes_hit": tot["probes"],
            "determinism_rechecks": tot["det_checked"], "determinism_mismatches": tot["det_bad"],
            "stopped_by": sorted(stopped) or ["run count"],
            "components_real": getattr(mod, "REAL", []),
            "components_stubbed": getattr(mod, "STUB", []),
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "Preemption inside asyncz happens at source-line granularity and at every lock, queue, clock, file and "
            "network call; libraries below it are preempted only at those calls.",
            "A clean run is evidence over the sampled schedules, not a proof."],
        "wall_s": round(wall_s, 2),
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    print(f"{pid}: {tot['runs']} runs, {len(hashes)} distinct histories, {round(tot['simtime']/1e6)} simulated s, "
          f"{wall_s:.1f} s wall, violations {len(new)}, harness {len(harness)}, nondet {tot['det_bad']}/{tot['det_checked']}")
    return rc


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    boot.boot()
    mod = load(doc["property"])
    warmup(mod)
    r = execute(mod, doc["seed"], replay=None if doc.get("use_seed") else doc["streams"], keep_log=True)
    for line in r.log:
        print(line)
    if r.harness:
        print("HARNESS ERROR", r.harness)
        return 2
    if doc.get("history_hash"):
        print("history hash", r.hash, "identical" if r.hash == doc["history_hash"] else "DIFFERS from recorded")
    hit = [v for v in r.viols if v[0] == doc["kind"]]
    if hit:
        print(f"VIOLATION property={doc['property']} replay={path}")
        print("  kind=" + hit[0][0], hit[0][1][:3000])
        return 1
    print("not reproduced; violations:", r.viols)
    return 0
