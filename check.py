#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property on /repo's current tree.
Exit 0: held on everything explored; exit 1 with VIOLATION lines otherwise; exit 2: no answer."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    m = importlib.import_module(a.id.lower())
    ck = vf.Check(a.id, a.tier, a.seed, m.LEVEL)
    try:
        m.run(ck)
    except vf.CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        if ck.violations:          # what was already confirmed stands
            sys.exit(ck.finish())
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if ck.violations:
            sys.exit(ck.finish())
        sys.exit(2)
    sys.exit(ck.finish())


if __name__ == "__main__":
    main()
