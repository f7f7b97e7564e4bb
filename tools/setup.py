#!/usr/bin/env python3
"""builds every harness in every flavor (the checks rebuild whatever changed)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
need = sorted({(r["h"], f) for s in PROPS.values() for r in s["runs"] for f in r.get("flavors", ["asan", "tsan"])})
for h, f in need:
    print(h, f, B.build(h, f), flush=True)
