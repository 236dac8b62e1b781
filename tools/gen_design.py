#!/usr/bin/env python3
"""Write DESIGN.md from properties.jsonl, the check modules' headers, known_findings.json, seeded/ and the text below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from gen_manifest import consts

HEAD = '''# Model checking gtri/upstage

Generated by `tools/gen_design.py` (edit the text there, or the headers of `checks/cXX.py`).

## Method

UPSTAGE is a discrete-event simulation library: one interpreter thread, a heap of events and
generators resumed from it. What is open in an execution is (1) the program the user writes
(which events are waited for, which operations are done, with which parameters), (2) where in the event order
something external happens (an interrupt, a block of a link, a put of somebody else), including every
position *within* one instant, and (3) what the interpreter decides freely (hash order of sets,
what ran before). All checks are **stateless model checking of the real code**: a harness is an ordinary
Python function that builds a simulation from the public API and takes every open decision through
`ctx.choose(options)`; `mc/engine.py` runs the harness once for every possible sequence of choices
(depth first, by re-execution from the start, spread over 8 processes). The exploration is exhaustive inside the stated
bounds, nothing is sampled, and there is no separate model that could drift from the code: every execution *is* an
execution of the implementation, and the oracle (a small reference model, closed formula, independent recomputation or a
second run of the code in an equivalent situation) runs beside it and is compared after every step.

* `mc/engine.py` - explorer, replay, minimal histories, coverage counts (executions, transitions, distinct
  states, oracle checks, distinct outcomes). An unexpected exception that leaves a harness is a violation; a watchdog
  turns an execution that never ends into one; a harness that is not deterministic is detected (`BadPrefix`) .
* `mc/sim.py` - drives a SimPy environment event by event, so that injected actions can be put at *every
  position in the event order* (before, between and after the events of an instant), and stops at a horizon.
* `mc/runner.py` - rebuild-free import of /repo/src (bytecode caches are ignored, so the current tree is always what runs),
  tiers, evidence, known findings, replay files. A violation is re-run from its choices before it is reported.
* `checks/victim.py`, `checks/kinds.py` - the shared alphabet of things a task can wait for and of things that can be left over.
* `checks/cXX.py` - one module per property.

Run one check: `/opt/venv/bin/python -B run.py C05 [--thorough]`; replay a violation: `run.py --replay FILE`.
No hook in /repo is needed (MANIFEST `hooks` is empty); everything is observed through the public API, and where a
check must see a queue (that no request is left behind), through the queue attributes of SimPy's resources.

Why this reaches what tests cannot: a unit test fixes one program and one schedule. The defects found here (list
below) sat in coincidences - an interrupt at the very instant of a grant, a second interrupt while a routine cleans up, a zero-length
leg, the same place written in radians - which exhaustive enumeration of small cases meets without anybody having to think of them.

Limits: everything is bounded; it says nothing about longer programs than those enumerated (bounds chosen so that every pair,
usually triple, of operations and each injected action at each position occurs). SimPy's kernel and CPython are trusted. Floating
point is compared with stated tolerances. Choice points are enumerated over small alphabets of values
chosen to include boundaries, ties, zeros and equal-but-distinct objects.

No property is left to another technique, and `not_applicable` is empty.

'''

COST = json.load(open(os.path.join(ROOT, "tools/costs.json")))
NOTES = json.load(open(os.path.join(ROOT, "tools/notes.json")))
FALSE = open(os.path.join(ROOT, "tools/false_alarms.md")).read()
CAUGHT = json.load(open(os.path.join(ROOT, "tools/caught.json")))

def main():
    out = [HEAD, "## Properties\n"]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        c = consts(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        b = c.get("BOUNDS", {})
        doc = c["doc"].split("\n", 1)[1].strip() if "\n" in c["doc"] else c["doc"]
        out.append(f"### {p['id']} {p['title']}\n")
        out.append("*Decided by:* " + " ".join(doc.split()) + "\n")
        out.append(f"*Quantified over:* {p['quantifier']['text']}.\n")
        out.append(f"*Oracle:* {c.get('ORACLE', 'reference model in the harness')}.\n")
        out.append(f"*Bounds (quick):* {b.get('quick', '')}. *Thorough:* {b.get('thorough', 'the same')}.\n")
        if p["id"] in COST:
            q, t = COST[p["id"]]
            out.append(f"*Cost:* quick about {q} s, thorough about {t} s on 8 cores.\n")
        out.append(f"*Why not tests:* {p['why_tests_cant']}\n")
        if p["id"] in NOTES:
            out.append(f"*Left open on purpose:* {NOTES[p['id']]}\n")
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out.append("## Genuine defects\n\nRepaired in /repo (one `fix:` commit each; the check reports them again if they return):\n")
    out += ["* " + x.removeprefix("fixed: property=") for x in k["fixed"]]
    out.append("\nRecorded, not repaired, because existing tests or documented use rely on the behaviour (the checks print `KNOWN-FINDING` for exactly these):\n")
    out += [f"* {x['property']} `{x['signature']}`: {x['what']}" for x in k["known"]]
    out.append("\n" + FALSE)
    out.append("## Planted bugs\n\nEach is under `seeded/<id>`; made from a property's text and the code, kept whether or not it was caught at first.\n")
    out.append("| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {CAUGHT.get(i, 'not run')} |")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
main()
