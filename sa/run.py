#!/usr/bin/env python3
"""run.py <property-id> [...]: decide a property for /repo's current working tree."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from irbuild import AnalysisBroken
import report

def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    rc = 0
    P = {}
    for pid in ids:
        try:
            mod = importlib.import_module("checks." + pid.lower())
            R = report.Reporter(pid, tier)
            need = (bool(getattr(mod, "RUBY", False)), bool(getattr(mod, "INLINE", False)))
            if need not in P:
                import prog
                P[need] = prog.Program(ruby=need[0], inline=need[1])
            mod.run(P[need], R)
            rc = max(rc, R.finish(P[need]))
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); rc = 2
        except Exception:
            traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error" % pid); rc = 2
    return rc

if __name__ == "__main__":
    sys.exit(main())
