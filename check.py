#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property on /repo's current sources."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from mm import extract as X          # noqa: E402
from mm.ir import Program            # noqa: E402
from mm.report import Report         # noqa: E402


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    mod = importlib.import_module("mm.checks." + prop.lower())
    rep = Report(prop, tier)
    try:
        tus = list(mod.TUS)
        if tier == "thorough":
            tus += [t for t in getattr(mod, "MORE_TUS", []) if t not in tus]
        prog = Program(tus)
        mod.run(prog, rep)
        return rep.finish(prog)
    except X.AnalysisError as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 2


if __name__ == "__main__":
    sys.exit(main())
