#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current sources."""
import os, sys, argparse, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.dont_write_bytecode = True
import report
from build import AnalysisBroken


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(a.prop.lower())
        ctx = report.Ctx(a.prop, a.tier, seed)
        mod.run(ctx)
        rc = report.finish(ctx, getattr(mod, "LEVEL", "other"))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s: %s" % (a.prop, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: %s: internal error" % a.prop)
        rc = 4
    sys.stdout.flush()
    os._exit(rc)


main()
