"""python3-vt -m sa.run <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    from . import api
    mod = importlib.import_module(f"sa.checks.{prop}")
    R = api.Report(prop, tier)
    try:
        rc = mod.run(R)
    except Exception:
        traceback.print_exc()
        print(f"{prop}: analysis failed")
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
