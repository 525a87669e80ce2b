#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True

import drive  # noqa: E402
import props  # noqa: E402


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in props.CHECKS:
        print("usage: check.py " + "|".join(sorted(props.CHECKS)), file=sys.stderr)
        return 2
    try:
        return props.CHECKS[sys.argv[1]]()
    except drive.DoesNotBuild as e:
        e.rep.violation({"shape": "compiler", "case": "build", "message": e.message})
        return e.rep.finish()
    except drive.Broken as e:
        rep = drive.Report.current
        if rep is not None and rep.violations:
            # What was observed before stands.
            return rep.finish()
        print("%s: no answer: %s" % (sys.argv[1], e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
