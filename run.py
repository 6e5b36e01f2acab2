#!/usr/bin/env python3
"""run.py Cxx: decides one property against /repo's working tree.

Exit 0: held on everything explored; 1: violated (a line VIOLATION property=.. replay=..);
2: the check itself failed.  VERIF_SEED, VERIF_TIER=quick|thorough."""
import json, os, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *
import decide

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        sys.exit(decide.main(prop, tier, seed))
    except ToolError as e:
        log("ERROR of the check: %s" % e)
        sys.exit(2)
