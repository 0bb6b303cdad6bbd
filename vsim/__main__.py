import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser(prog="check")
    ap.add_argument("what")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--log", action="store_true")
    a = ap.parse_args()
    from . import runner
    if a.what == "setup":
        from . import boot
        boot.boot()
        print("ok: all seams install, asyncz imports from", boot.REPO)
        return 0
    if a.what == "replay":
        return runner.replay(a.arg)
    if a.what == "one":      # one PROP --seed N: single run with its history
        from . import boot
        boot.boot()
        mod = runner.load(a.arg)
        runner.warmup(mod)
        r = runner.execute(mod, a.seed, keep_log=True)
        if a.log:
            print("\n".join(r.log))
        print(r.viols, r.harness, r.info, r.faults, r.probes, f"{r.wall*1000:.1f} ms", r.steps, r.hash[:12])
        return 0
    if a.what == "show":
        import json
        d = json.load(open(a.arg))
        print(d["kind"], d["message"], d.get("choices_before"), d.get("choices_after"), d.get("faults"))
        print("\n".join(d.get("trace", [])))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    return runner.check(a.what, tier, seed, a.jobs, a.runs, a.wall)


sys.exit(main())
