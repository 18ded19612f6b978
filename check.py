#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import runner

def main():
    prop = sys.argv[1]
    import checks
    r = runner.Run(prop)
    try:
        checks.CHECKS[prop](r)
    except runner.CheckError as e:
        print("CHECK ERROR: %s" % e)
        r.cleanup()
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        r.cleanup()
        sys.exit(4)
main()
