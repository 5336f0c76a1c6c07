#!/usr/bin/env python3
"""Checks the specification's types and builds the harness once, offline."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
os.makedirs(os.path.join(V, ".build"), exist_ok=True)
import vlib
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.qnt"))):
    r = subprocess.run(["quint", "typecheck", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        bad = 1
        print(r.stdout[-2000:])
vlib.build_harness(("conform", "lowlevel", "custom", "accel", "testing"))
sys.exit(bad)
