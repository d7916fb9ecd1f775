"""Builds the harness from /repo's tree (every check does so again if the tree changed)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from hv import build

for f in ((), ("consume-question",)):
    try:
        h = build.harness(f)
        print("built", h.tdir)
    except build.Inconclusive as e:
        print(e, file=sys.stderr)
        sys.exit(1)
