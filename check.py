#!/usr/bin/env python3
"""check.py <property>: decide one property for the code in /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib, checks


def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        checks.run(c)
        return c.finish()
    except Exception as e:
        if isinstance(e, vlib.HarnessError):
            print("ERROR (no verdict): %s" % e, file=sys.stderr)
        else:
            traceback.print_exc()
        # what the code was seen to do wrong before stays wrong; so does a call
        # on which the library dies or hangs again and again
        for what, req in vlib.Driver.stuck[:3]:
            if not c.violations:
                c.violation(what, {"request": req})
        if c.violations:
            return c.finish()
        return 2


sys.exit(main())
