import argparse
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--jobs", type=int)
ap.add_argument("--only", nargs="*")
a = ap.parse_args()
from mc import potload

mod_name = "checks." + a.prop.lower()
import importlib.util

src = importlib.util.find_spec(mod_name)
# a check module declares BACKENDS before it imports ot
conf = dict(BACKENDS=(), OMP=1, ASAN=False)
for line in open(src.origin):
    k = line.split("=", 1)[0].strip()
    if k in conf and line.startswith(k):
        conf[k] = eval(line.split("=", 1)[1])
try:
    force = None
    if conf["ASAN"]:
        from mc import asan

        force = asan.ensure()
    potload.load(conf["BACKENDS"], force=force, omp=conf["OMP"])
except Exception as e:  # the tree does not build or import: nothing can hold
    import json
    import traceback

    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", "replay", a.prop + "-load.json")
    json.dump(dict(property=a.prop, message=traceback.format_exc()), open(p, "w"))
    traceback.print_exc()
    print("VIOLATION property=%s replay=%s" % (a.prop, p))
    sys.exit(1)
mod = importlib.import_module(mod_name)
from mc import engine

mod.TIER = a.tier
scopes = mod.scopes(a.tier)
if a.replay:
    sys.exit(engine.replay(a.prop, scopes, a.replay))
rc = engine.run_check(a.prop, scopes, tier=a.tier, jobs=a.jobs, only=a.only,
                      assumptions=getattr(mod, "ASSUMPTIONS", ()), note=getattr(mod, "NOTE", ""))
sys.stdout.flush()
os._exit(rc)
