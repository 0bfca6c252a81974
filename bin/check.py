#!/usr/bin/env python3
"""check.py <property> [--thorough]: exit 0 held, 1 violated (VIOLATION line), 2 the check could not run."""
import sys, os, traceback
if "--thorough" in sys.argv: os.environ["VERIF_TIER"] = "thorough"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import checks, core
def main():
    pid = sys.argv[1]
    try:
        sys.exit(checks.run(pid))
    except core.Infra as x:
        print("ERROR %s: %s" % (pid, x)); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
main()
