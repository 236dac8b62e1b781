#!/usr/bin/env python3
"""Plant a bug: plant.py ID PROPERTY FILE 'needs' 'what' < script

stdin: OLD\n====\nNEW blocks separated by '\n####\n', then '\n@@@@\n' and the demo (python).
Checks that the patched copy passes the stable tests and that the demo tells them apart.
"""
import json, os, subprocess, sys, shutil
ID, PROP, FILE, NEEDS, WHAT = sys.argv[1:6]
raw = sys.stdin.read()
edits, demo = raw.split("\n@@@@\n", 1)
D = f"/verif/seeded/{ID}"
SC = f"/tmp/plant_{ID}"
subprocess.run(["rm", "-rf", SC]); subprocess.run(["cp", "-a", "/repo", SC], check=True)
for e in edits.split("\n####\n"):
    f = FILE
    if e.startswith("@file "):
        first, e = e.split("\n", 1); f = first[6:].strip()
    p = f"{SC}/src/upstage_des/{f}"
    old, new = e.split("\n====\n")
    old, new = old.strip("\n"), new.strip("\n")
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
os.makedirs(D, exist_ok=True)
diff = subprocess.run(["git", "-C", SC, "diff"], capture_output=True, text=True).stdout
open(f"{D}/patch.diff", "w").write(diff)
open(f"{D}/demo.py", "w").write(demo.lstrip("\n"))
open(f"{D}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(f"{D}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": WHAT}, open(f"{D}/meta.json", "w"), indent=1)
env = dict(os.environ, PYTHONPATH=f"{SC}/src", PYTHONDONTWRITEBYTECODE="1")
ok = True
r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", f"{SC}/src/upstage_des/test"], cwd=SC, env=env, capture_output=True, text=True)
print("tests:", r.stdout.strip().splitlines()[-1])
ok &= r.returncode == 0
r = subprocess.run(["bash", f"{D}/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("demo clean:", r.returncode, r.stderr[-300:] if r.returncode else ""); ok &= r.returncode == 0
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{D}/patch.diff"])
ok &= r.returncode == 0
r = subprocess.run(["bash", f"{D}/demo.sh"], cwd=SC, env=env, capture_output=True, text=True)
print("demo patched:", r.returncode, (r.stderr or r.stdout).strip()[-200:]); ok &= r.returncode != 0
if ok:
    c = subprocess.run(["/opt/venv/bin/python", "-B", "run.py", PROP], cwd="/verif", env=dict(os.environ, VERIF_REPO=SC), capture_output=True, text=True)
    caught = c.returncode == 1 and f"VIOLATION property={PROP}" in c.stdout
    print("check:", c.returncode, "CAUGHT" if caught else "** MISSED **")
    print("\n".join(x[:220] for x in c.stdout.splitlines() if "violation 1" in x or "history" in x)[:700])
    path = "/verif/tools/caught.json"
    known = json.load(open(path))
    known[ID] = f"{PROP} check" if caught else "missed"
    json.dump(known, open(path, "w"), indent=1, sort_keys=True)
subprocess.run(["rm", "-rf", SC])
print("PLANTED" if ok else "REJECTED", ID)
