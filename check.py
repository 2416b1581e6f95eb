#!/usr/bin/env python3
"""check.py PROPERTY: exit 0 if it holds, 1 if it is violated, 2 if the check failed."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
try:
    from vp.main import main
    rc = main(sys.argv[1:])
except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    rc = 2
sys.exit(rc)
