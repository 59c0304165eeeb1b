#!/usr/bin/env python3
"""Builds the engine and all harness binaries (cached in .build by content)."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
files = sorted({s["file"] for p in PROPS.values() for s in p["harnesses"]})
for f in files:
    for extra in ([], ["--plain"]):
        print(f, *extra, flush=True)
        subprocess.run([sys.executable, os.path.join(V, "tools", "build.py"), f] + extra, check=True)
