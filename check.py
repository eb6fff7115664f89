#!/usr/bin/env python3
"""check.py ID [ID...]: decides the properties from /repo's current source. Exit 0 held, 1 violated."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(20000)
import dump, ck, registry

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        argv.remove("--thorough")
        tier = "thorough"
    ids = argv or sorted(registry.CHECKS)
    if ids == ["all"]:
        ids = sorted(registry.CHECKS)
    return registry.run(ids, tier)

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
