#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(vlib.run(prop, checks.CHECKS[prop]))
