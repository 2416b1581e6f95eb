"""Builds what the checks share; every check builds it itself if it is missing."""
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import engine  # noqa: E402

engine.build_java()
with tempfile.TemporaryDirectory(dir=engine.BUILD) as work:
    engine.build_driver(work)
print("ok")
