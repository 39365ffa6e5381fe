import argparse
import json
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path = [p for p in sys.path if "metku/sections" not in p]
sys.setrecursionlimit(20000)
from . import runner   # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--only")
ap.add_argument("--replay")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
a = ap.parse_args()
if a.replay:
    d = json.load(open(a.replay))
    reg, _ = runner.load_harnesses(a.prop, False)
    f = [r[1] for r in reg if r[0] == d["harness"]][0]
    st, c = runner.run_concrete(f, d["values"], d["choices"])
    print(st)
    for nm, msg in c.failures:
        print("  ", nm, ":", msg)
    sys.exit(1 if st == "fail" else 0)
sys.exit(runner.main(a.prop, a.tier, a.seed, a.only))
