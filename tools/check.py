#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on the current tree of /repo (VERIF_SEED, VERIF_TIER).
check.py --replay FILE : runs a reported session again.
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check could not decide."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, harness
from vlib import CheckError


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return harness.replay(sys.argv[2])
    prop = sys.argv[1]
    ctx = harness.Ctx(prop)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 1 if ctx.report() else 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 1 if ctx.report() else 2
    finally:
        vlib.cleanup()


sys.exit(main())
