#!/usr/bin/env python3
"""check.py C01 | check.py --replay FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import driver, props

def main():
    if sys.argv[1] == "--replay":
        return driver.replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = props.PROPS[prop]
    if os.environ.get("SIM_SECONDS"):
        cfg["quick_s"] = cfg["thorough_s"] = float(os.environ["SIM_SECONDS"])
    print("%s: seed %d, tier %s" % (prop, seed, tier), flush=True)
    return driver.explore(prop, cfg, "thorough" if tier == "thorough" else "quick", seed)

sys.exit(main())
