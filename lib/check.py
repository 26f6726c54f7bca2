#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check could not do its work."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import props


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if pid not in props.CHECKS:
        print("no check for property " + pid)
        return 2
    try:
        c = vf.Check(pid, tier, seed)
        props.CHECKS[pid](c)
        return c.finish()
    except vf.CheckError as e:
        print("check error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
