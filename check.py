#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's current tree."""
import os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import core

READER = "C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C12 C15 C16 C17 C21 C25".split()


def main():
    p = sys.argv[1]
    try:
        if p in READER:
            import reader_checks
            return reader_checks.check(p)
        import importlib
        return importlib.import_module("check_" + p.lower()).check()
    except core.ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2


sys.exit(main())
