#!/usr/bin/env python3
"""check.py <property id> : decides one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    c = vlib.Check(pid)
    try:
        mod.run(c)
        return c.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR", pid, e, file=sys.stderr)
        if c.viol:            # something was already confirmed
            return c.finish()
        c.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        if c.viol:
            return c.finish()
        c.cleanup()
        return 3

sys.exit(main())
