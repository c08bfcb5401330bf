#!/usr/bin/env python3
"""check.py <property id> [--thorough]   decides one property on /repo's current source"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    from base import Report, Broken
    from build import BuildError
    mod = importlib.import_module(prop.lower())
    rep = Report(prop, tier)
    try:
        mod.run(rep, tier)
        rc = rep.finish()
    except (Broken, BuildError) as ex:
        rc = 3
        if rep.bad:
            # what was found before the analysis gave up stands
            try:
                rc = 3 if rep.finish() != 1 else 1
            except Broken:
                pass
        if rc == 3:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, ex))
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    rc = main()
    os._exit(rc)
