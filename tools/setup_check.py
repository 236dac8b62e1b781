"""setup_cmd: nothing to build (pure Python); check that the pieces are there."""
import importlib, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo/src")
import simpy, upstage_des  # noqa
for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
    if f.endswith(".py") and f != "__init__.py":
        importlib.import_module("checks." + f[:-3])
print("ok", simpy.__version__)
