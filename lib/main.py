"""check ID [quick|thorough]   decide one property on the current tree"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from report import Run


def table():
    import c_parse
    t = {p: c_parse.check for p in c_parse.PROPS}
    for m in ("c_front", "c_code", "c_ast", "c_help", "c_sets", "c_pure", "c_macro", "c_err"):
        try:
            mod = __import__(m)
        except ImportError as x:
            if x.name != m:
                raise
            continue
        for p in mod.PROPS:
            t[p] = mod.check
    return t


def main():
    sys.setrecursionlimit(10000)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        table()[prop](run)
    except core.ToolError as x:
        print("no answer:", x)
        #  what was found before that still counts
        return run.finish() if run.bad else 2
    except Exception:
        traceback.print_exc()
        return run.finish() if run.bad else 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
