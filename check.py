#!/usr/bin/env python3
"""Entry point of all checks:  check.py <property id>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner as R
import registry


def main():
    prop = sys.argv[1]
    fn, level = registry.CHECKS[prop]
    check = R.Check(prop, level)
    try:
        fn(check)
    except R.B.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    except R.CheckError as e:
        print("CHECK ERROR", e)
        if check.violations:
            return check.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if check.violations:
            return check.finish()
        return 2
    return check.finish()


if __name__ == "__main__":
    sys.exit(main())
