"""Writes MANIFEST.json from the property modules present in vsim/props."""
import ast
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C25": "Cron field matching is a pure function of (expression, reference instant): no concurrency, time source, "
           "I/O or second party influences it, so a simulated schedule or fault cannot change the answer. The cron "
           "schedules simulated in C01, C19, C20 and C23 are compared with an independent reference on the way.",
    "C26": "Shape conversion is a pure function of its input value; there is no schedule, clock, I/O or fault for a "
           "simulator to control.",
}
checks, na = [], []
for i in ids:
    p = os.path.join(here, "vsim", "props", i.lower() + ".py")
    if os.path.exists(p):
        ns = {}
        for node in ast.parse(open(p).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        checks.append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, clocks and "
                         "faults, history oracles",
            "level": ns.get("LEVEL", "exploration"),
            "level_note": ns.get("NOTE", "Seeded sampling of simulated executions of the real code against an "
                                         "independent reference; a clean run is evidence over the sampled schedules "
                                         "and faults, not a proof."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
doc = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
