"""Command line, evidence files, replay files, known findings."""
import importlib
import json
import os
import time

from . import engine


def load_known(root, prop):
    """Open findings of a property: {signature: text}. 'fixed' entries suppress nothing."""
    path = os.path.join(root, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["signature"]: e["what"] for e in data.get("known", []) if e["property"] == prop}


def find_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def main(argv, root, repo):
    import upstage_des
    src = os.path.realpath(upstage_des.__file__)
    if not src.startswith(os.path.realpath(repo) + os.sep):
        print(f"upstage_des imported from {src}, not from {repo}")
        return 3
    if argv and argv[0] == "--replay":
        return replay(argv[1], root)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(prop, tier, seed, root)


def run(prop, tier, seed, root):
    t0 = time.monotonic()
    mod = find_check(prop)
    known = load_known(root, prop)

    def matcher(vio):
        sig = f"{vio['harness']}|{vio['key']}"
        return sig if sig in known else None

    harnesses = mod.harnesses(tier)
    budget = 600 if tier == "quick" else 840
    results = engine.explore(harnesses, tier, matcher if known else None, budget_s=budget)
    tot = engine.Result()
    per = {}
    for name, r in results.items():
        per[name] = {
            "executions": r.execs, "transitions": r.steps, "states": len(r.states),
            "oracle_checks": r.checks, "distinct_outcomes": len(r.outcomes),
            "complete": not r.capped and not r.violations,
        }
        tot.merge(r)
    tot.samples = []
    for r in results.values():
        tot.samples += r.samples[:1]
    print(f"{prop} [{tier}] executions={tot.execs} transitions={tot.steps} "
          f"states={len(tot.states)} oracle_checks={tot.checks} outcomes={len(tot.outcomes)}")
    for name, d in per.items():
        print(f"  {name}: {d}")
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "evaluations": tot.execs,
        "oracle_checks": tot.checks,
        "distinct_outcomes": len(tot.outcomes),
        "exhaustive": not tot.capped and not tot.violations,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "oracle": getattr(mod, "ORACLE", ""),
        "harnesses": per,
        "samples": tot.samples[:6],
        "known_findings_met": {k: v["count"] for k, v in tot.known.items()},
        "capped": tot.capped,
    }
    if level == "model_checking":
        cov["states"] = len(tot.states)
        cov["transitions"] = tot.steps
        # every explored execution runs the real code next to the reference
        cov["traces_validated_against_impl"] = tot.execs
    else:
        cov["distinct_nontrivial"] = len(tot.states)
        cov["rule"] = getattr(mod, "RULE", "every point of the stated grid; distinct by canonical input")
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": len(tot.violations),
    }
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    with open(os.path.join(root, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evid, f, indent=1, default=str)
        f.write("\n")
    for sig in sorted(tot.known):
        print(f"KNOWN-FINDING: property={prop} {known[sig]} [{sig}; {tot.known[sig]['count']} executions]")
    if not tot.violations:
        return 0
    tot.violations.sort(key=lambda v: (len(v["choices"]), v["harness"], v["choices"]))
    byname = {h.name: h for h in harnesses}
    rdir = os.path.join(root, "replays")
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    rep = None
    for i, v in enumerate(tot.violations):
        if (v["harness"], v["key"], v["msg"]) in shown or len(shown) >= 5:
            continue
        shown.add((v["harness"], v["key"], v["msg"]))
        again = engine.execute(byname[v["harness"]], v["choices"], tier)[1]
        v["reproduced"] = again is not None and again["msg"] == v["msg"]
        v["property"], v["tier"] = prop, tier
        path = os.path.join(rdir, f"{prop}-{len(shown)}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
            f.write("\n")
        rep = rep or path
        print(f"  violation {len(shown)} in {v['harness']} (key {v['key']}): {v['msg']}")
        print(f"    history: {'; '.join(v['notes'][:60])}")
        print(f"    reproduced on replay: {v['reproduced']}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1


def replay(path, root):
    with open(path) as f:
        v = json.load(f)
    mod = find_check(v["property"])
    h = {h.name: h for h in mod.harnesses(v["tier"])}[v["harness"]]
    ctx, vio = engine.execute(h, v["choices"], v["tier"])
    print(f"property {v['property']} harness {v['harness']} choices {v['choices']}")
    for n in ctx.notes:
        print("  ", n)
    if vio is None:
        print("no violation on this tree")
        return 0
    print("violation:", vio["msg"])
    print(f"VIOLATION property={v['property']} replay={path}")
    return 1
