"""mut.py [CXX CYY..] < edits: try small source changes against checks, in a scratch copy of /repo.

Mutants are separated by ####. Each is one or more edits separated by ++++, an edit being OLD / ==== / NEW, optionally headed by
'@file path' (sticky) and, for a mutant, '@check CXX CYY' (else the ids on the command line).
"""
import os
import subprocess
import sys

SC = f"/tmp/mut_{os.getpid()}"
SRC = SC + "/src/upstage_des/"
path = None
ids = sys.argv[1:]
subprocess.run(["cp", "-a", "/repo", SC], check=True)
subprocess.run("git checkout -q -- .", shell=True, cwd=SC, check=True)
env = dict(os.environ, PYTHONPATH=SC + "/src", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=SC)
try:
    for n, mutant in enumerate(sys.stdin.read().split("\n####\n"), 1):
        bad, title = None, None
        for e in mutant.split("\n++++\n"):
            e = e.strip("\n")
            while e.startswith("@"):
                head, e = e.split("\n", 1)
                if head.startswith("@file "):
                    path = SRC + head[6:].strip()
                else:
                    ids = head.split()[1:]
            old, new = e.split("\n====", 1)
            new = new.lstrip("\n") if new.strip() else ""
            s = open(path).read()
            if s.count(old) != 1:
                bad = f"{s.count(old)} matches: {old[:60]!r}"
                break
            open(path, "w").write(s.replace(old, new))
            title = title or next((b.strip() for b in new.splitlines() if b.strip() and b not in old), "deleted: " + old.strip().splitlines()[0])[:70]
        if n <= int(os.environ.get("SKIP", 0)):
            pass
        elif bad:
            print(f"#{n} BAD {bad}", flush=True)
        else:
            t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", SRC + "test"], cwd=SC, env=env, capture_output=True, text=True)
            t = t.stdout.strip().splitlines()[-1:]
            out = []
            if not t or "failed" in t[0] or "error" in t[0] or "passed" not in t[0]:
                print(f"#{n} [{t[0][:40] if t else '?'}] {title!r}: not for the tests", flush=True)
                subprocess.run("git checkout -q -- .", shell=True, cwd=SC, check=True)
                continue
            for i in ids:
                if any("CAUGHT" in o for o in out):
                    break
                r = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "-B", "run.py", i], cwd=os.environ.get("VW", "/verif"), env=env, capture_output=True, text=True)
                v = [x for x in r.stdout.splitlines() if "violation 1" in x]
                out.append(f"{i}={'CAUGHT' if r.returncode == 1 else '**MISSED**' if r.returncode == 0 else 'ERR'} {v[0][:150].strip() if v else ''}")
            print(f"#{n} [{t[0][:40] if t else '?'}] {title!r}: " + " | ".join(out), flush=True)
        subprocess.run("git checkout -q -- .", shell=True, cwd=SC, check=True)
finally:
    subprocess.run(["rm", "-rf", SC])
