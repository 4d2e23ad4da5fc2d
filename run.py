#!/usr/bin/env python3
"""Decide one property: run.py <ID> [--tier quick|thorough]."""
import importlib, os, sys, time, traceback
sys.dont_write_bytecode = True
from vf import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        mod = importlib.import_module(f"vf.props.{prop.lower()}")
        return mod.P.check(prop, tier, t0)
    except core.AnalysisError as e:
        print(f"ANALYSIS-ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
