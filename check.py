#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, checks

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = core.Run(prop, tier, seed)
    try:
        checks.CHECKS[prop](run)
        run.known_findings()
        rc = run.finish("model_checking")
    except core.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc(limit=-6)
        rc = 2
    finally:
        run.close()
    sys.exit(rc)

main()
