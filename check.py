#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property from /repo's
current source.  Exit 0 holds, 1 violated (VIOLATION line), 2 analysis broken."""
import argparse, importlib, os, sys, traceback
if "PYTHONHASHSEED" not in os.environ:      # the same order of sets in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib.build import AnalysisError
from vlib.report import Report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    rep = Report(a.property, tier, seed)
    try:
        from vlib.program import Program
        mod = importlib.import_module("vlib.rules." + a.property.lower())
        P = Program()
        rep.did("functions", len(P.funcs))
        rep.did("translation units", len(P.raw["tus"]))
        if len(P.funcs) < 800 or len(P.raw["tus"]) < 40:
            raise AnalysisError("only %d functions parsed" % len(P.funcs))
        mod.run(P, rep)
        return rep.finish(mod.LEVEL, mod.EXPLANATION)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN %s: %s" % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % a.property)
        return 2


if __name__ == "__main__":
    sys.exit(main())
