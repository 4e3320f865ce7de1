#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's source."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import rule
def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module("checks." + pid.lower())
    return rule.run(pid, m.check, tier, m.META)
if __name__ == "__main__":
    sys.exit(main())
