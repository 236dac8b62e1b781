#!/opt/venv/bin/python
"""Run one property's check, or replay one recorded violation.

  run.py C05                explore (VERIF_TIER=quick|thorough, default quick)
  run.py --replay FILE      re-run one recorded execution and show it
"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-no-pycache"   # always compile the tree as it is now
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(REPO, "src"))

from mc import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:], ROOT, REPO))
