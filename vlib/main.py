"""Runs one check: /opt/venv/bin/python /verif/vlib/main.py <ID> [--replay FILE]"""
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _stage0():
    sys.path.insert(0, VERIF)
    from vlib import build

    tree = build.build()
    env = dict(os.environ)
    env["PYTHONPATH"] = tree + ":" + VERIF
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONWARNINGS"] = "ignore"
    env["HOME"] = env.get("HOME") or "/root"
    env["VERIF_STAGE"] = "1"
    env["VERIF_TREE"] = tree
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["MKL_NUM_THREADS"] = "1"
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, env)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "evaluations": 0,
            "distinct_nontrivial": 0,
            "samples": [],
            "parts": {},
        }
        self.assumptions = []
        self.violations = []  # (signature, text, replay dict)
        self.rule = ""
        self.errors = []
        self.exhaustive = True

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- deciding steps --------------------------------------------------
    def explore(self, scenarios, budget=None, bound=None):
        from vlib import explore as E

        budget = budget or self.pick(120, 1500)
        scenarios = list(scenarios)
        only = os.environ.get("VERIF_ONLY")
        if only:
            scenarios = [s for s in scenarios if only in s.name]
        if bound is None:
            bound = lambda s: s.bound_thorough if self.thorough else s.bound  # noqa
        known = [k for k in load_known() if k.get("status") == "known" and k["property"] == self.pid]
        E.KNOWN[0] = lambda sig, text: any(_match(k, sig, text) for k in known)
        out = E.explore(scenarios, bound, budget)
        for name, st in out["stats"].items():
            self.cov["states"] += st["nodes"]
            self.cov["transitions"] += st["choice_points"]
            self.cov["traces_validated_against_impl"] += st["executions"]
            self.cov["evaluations"] += st["executions"]
            self.cov["distinct_nontrivial"] += st["outcomes"]
            if st["completed_bound"] < st["bound"] or st["capped"]:
                self.exhaustive = False
            self.cov["parts"][name] = st
            if len(self.cov["samples"]) < 12:
                for k, v in list(out["outcomes"][name].items())[:1]:
                    self.cov["samples"].append("%s: %s" % (name, v[:300]))
        for d in out["divergences"][:5]:
            self.errors.append("nondeterminism in scenario %s prefix %s: %s" % d)
        seen = set()
        for v in out["violations"]:
            for kind, text in v["kinds"]:
                key = (v["scenario"], kind)
                if key in seen:
                    continue
                seen.add(key)
                self.violations.append(
                    (
                        "%s/%s" % (v["scenario"], kind),
                        text,
                        {"type": "schedule", "scenario": v["scenario"], "choices": v["prefix"], "labels": v["labels"], "text": text},
                    )
                )
        return out

    def enumerate(self, families, budget=None, parallel=True):
        from vlib import explore as E

        budget = budget or self.pick(120, 1500)
        only = os.environ.get("VERIF_ONLY")
        if only:
            families = {k: v for k, v in families.items() if only in k}
        families = {k: (list(v[0]), v[1]) for k, v in families.items()}
        out = E.enumerate_cases(families, budget, parallel)
        for name, st in out["families"].items():
            self.cov["states"] += st["cases"]
            self.cov["transitions"] += st["transitions"]
            self.cov["traces_validated_against_impl"] += st["cases"]
            self.cov["evaluations"] += st["cases"]
            self.cov["distinct_nontrivial"] += len(st["outcomes"])
            if st["timeout"] or st["cases"] < st["of"]:
                self.exhaustive = False
            self.cov["parts"][name] = {
                "cases": st["cases"],
                "of": st["of"],
                "distinct_outcomes": len(st["outcomes"]),
                "transitions": st["transitions"],
                "stopped_by_budget": st["timeout"],
            }
            if families[name][0]:
                for c in (families[name][0][len(families[name][0]) // 2],):
                    if len(self.cov["samples"]) < 24:
                        self.cov["samples"].append("%s: %s" % (name, repr(c)[:300]))
        for v in out["violations"]:
            sig = "%s/%s" % (v["family"], v.get("tag") or v["case"][:300])
            self.violations.append(
                (sig, v["text"], {"type": "case", "family": v["family"], "index": v["index"], "case": v["case"], "text": v["text"]})
            )
        return out

    def violation(self, sig, text, replay=None):
        self.violations.append((sig, text, replay or {"type": "note", "text": text}))


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def main():
    if os.environ.get("VERIF_STAGE") != "1":
        _stage0()
    sys.path[:] = [p for p in sys.path if p not in (VERIF + "/vlib",)]
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_STAGE"] = "0"
    import xoscar

    assert xoscar.__file__.startswith(os.environ["VERIF_TREE"]), xoscar.__file__
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier, seed)
    if "--replay" in sys.argv:
        return replay(mod, ctx, sys.argv[sys.argv.index("--replay") + 1])
    mod.run(ctx)
    return finish(mod, ctx)


def finish(mod, ctx):
    known = load_known()
    rc = 0
    unknown = []
    hit = {}
    for sig, text, rep in ctx.violations:
        for k in known:
            if k.get("status") == "known" and k["property"] == ctx.pid and _match(k, sig, text):
                hit.setdefault(json.dumps(k, sort_keys=True), (k, sig))
                break
        else:
            unknown.append((sig, text, rep))
    for k in known:
        if k.get("status") == "known" and k["property"] == ctx.pid:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    if unknown:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, (sig, text, rep) in enumerate(unknown[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (ctx.pid, n))
            rep = dict(rep, property=ctx.pid, signature=sig, how="cd /verif && ./run.sh %s --replay %s" % (ctx.pid, path))
            with open(path, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            print("  %s\n    %s" % (sig, text[:1500]))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        rc = 1
    elif ctx.errors:
        for e in ctx.errors[:10]:
            print("CHECK-ERROR " + e[:1500])
        rc = 2
    level = getattr(mod, "LEVEL", "model_checking")
    cov = ctx.cov
    cov["rule"] = ctx.rule or getattr(mod, "RULE", "")
    cov["exhaustive"] = bool(ctx.exhaustive)
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: executions=%d states=%d transitions=%d distinct outcomes=%d exhaustive=%s wall=%.1fs -> %s"
        % (
            ctx.pid, ctx.tier, cov["evaluations"], cov["states"], cov["transitions"],
            cov["distinct_nontrivial"], cov["exhaustive"], time.time() - ctx.t0,
            "ok" if rc == 0 else "exit %d" % rc,
        )
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in cov["parts"].items():
            print("   ", k, v)
    sys.stdout.flush()
    os._exit(rc)


def _match(k, sig, text):
    import re

    if "signature" in k and k["signature"] != sig:
        return False
    if "signature_re" in k and not re.search(k["signature_re"], sig):
        return False
    if "text_re" in k and not re.search(k["text_re"], text):
        return False
    return True


def replay(mod, ctx, path):
    """Re-executes one recorded violation without the explorer."""
    rep = json.load(open(path))
    from vlib import explore as E

    print(json.dumps({k: rep[k] for k in rep if k not in ("labels",)}, indent=1))
    found = []

    class Stop(Exception):
        pass

    def one_schedule(scenarios, budget=None, bound=None):
        from vlib import sim

        sim.install()
        for s in scenarios:
            if rep.get("type") == "schedule" and s.name == rep["scenario"]:
                for _ in range(2):
                    r = E.execute(s, rep["choices"], rep["labels"])
                    print("events:", " ".join(r.fire_log))
                    print("outcome:", r.outcome[:2000])
                    print("violations:", r.violations, "divergence:", r.divergence)
                    found.extend(r.violations)
                raise Stop()
        return {"stats": {}, "outcomes": {}, "violations": [], "divergences": []}

    def one_case(families, budget=None, parallel=True):
        for name, (cases, fn) in families.items():
            if rep.get("type") == "case" and name == rep["family"]:
                case = list(cases)[rep["index"]]
                print("case:", repr(case)[:3000])
                try:
                    r = fn(case)
                except Exception as e:  # noqa
                    import traceback

                    traceback.print_exc()
                    r = {"violation": repr(e)}
                print("result:", r)
                if r and r.get("violation"):
                    found.append(r["violation"])
                raise Stop()

    ctx.explore = one_schedule
    ctx.enumerate = one_case
    try:
        mod.run(ctx)
    except Stop:
        pass
    print("REPRODUCED" if found else "not reproduced")
    sys.stdout.flush()
    os._exit(1 if found else 0)


if __name__ == "__main__":
    main()
