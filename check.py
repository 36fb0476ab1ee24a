#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY.  See DESIGN.md."""
import sys, os, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import base, checks


def deadline(c):
    """A violation in hand is reported before the time runs out."""
    time.sleep(780)
    if c.violations:
        rc = c.finish()
        sys.stdout.flush()
        os._exit(rc)


def main():
    c = base.Check(sys.argv[1])
    if not base.THOROUGH:
        threading.Thread(target=deadline, args=(c,), daemon=True).start()
    try:
        checks.CHECKS[c.prop](c)
    except Exception as e:
        if isinstance(e, base.ToolError):
            print("ERROR: %s" % e, file=sys.stderr)
        else:
            traceback.print_exc()
        if not c.violations:
            sys.exit(2)
    sys.exit(c.finish())


main()
