#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a checks/pNN.py, the rest under not_applicable."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P31": "Collective groups need the native library xoscar_pygloo, which cannot be built offline here; every operation of the module goes through it, so there is no implementation to explore.",
}
SCHED = "deviation-bounded exhaustive schedule exploration of the real implementation under a controlled event loop"
ENUM = "bounded-exhaustive enumeration of inputs/histories on the real implementation against a reference model"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = "%s/checks/%s.py" % (V, p["id"].lower())
    if p["id"] in NA or not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE", "LEVEL"):
            consts[n.targets[0].id] = n.value.value if isinstance(n.value, ast.Constant) else {"SCHED": SCHED, "ENUM": ENUM}[n.value.id]
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s" % p["id"],
        "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": consts.get("TECHNIQUE", SCHED),
        "level": consts.get("LEVEL", "model_checking"),
        "level_note": consts.get("NOTE", "Exhaustive within the stated bounds (scenarios, deviations from the default schedule); trusts the simulated transports to behave like asyncio's."),
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python vlib/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the harness replaces the event loop, transports and process starting from outside.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
