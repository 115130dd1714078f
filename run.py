#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property for /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common, build, checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = common.Check(prop, tier, seed)
    try:
        level = checks.CHECKS[prop](c)
    except build.BuildError as e:
        print("the harness cannot be built from this tree:\n" + str(e))
        return 2
    return c.finish(level)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
