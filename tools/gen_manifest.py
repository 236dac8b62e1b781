#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules' headers."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOT = {}
PY = "/opt/venv/bin/python -B run.py"


def consts(path):
    out = {"LEVEL": "model_checking"}
    tree = ast.parse(open(path).read())
    out["doc"] = (ast.get_docstring(tree) or "").strip()
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    checks, na = [], []
    for p in props:
        path = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": p["id"], "reason": NOT.get(p["id"], "no check has been built for it yet")})
            continue
        c = consts(path)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} {p['id']}",
            "thorough_cmd": f"{PY} {p['id']} --thorough",
            "technique": c.get("TECHNIQUE", "stateless model checking of the real code: exhaustive bounded "
                               "exploration of choice sequences against a reference model"),
            "level": c["LEVEL"],
            "level_note": c.get("NOTE") or (
                "Exhaustive within: " + c.get("BOUNDS", {}).get("quick", "the stated bounds") +
                ". Oracle: " + c.get("ORACLE", "reference model in the harness") +
                ". Trusts CPython, SimPy's kernel and the harness; says nothing beyond the bounds."),
        })
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks in /repo are needed: every check drives the public API of the real code. "
                  "Genuine defects: known_findings.json (fixed and known)."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "checks;", len(na), "not claimed")


if __name__ == "__main__":
    main()
