#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decides one property on /repo's current tree. Exit 0 holds, 1 violated, 2 error."""
import sys, os, importlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, build

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module("checks." + pid.lower())
    ck = core.Check(pid, tier)
    try:
        rc = mod.main(ck)
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        rc = 2
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(ck.scratch, ignore_errors=True)
    sys.exit(rc)

main()
