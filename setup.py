#!/usr/bin/env python3
"""Builds, offline, what does not depend on /repo (core and std for the targets and instruments without a prebuilt library, the driver), and warms the rest."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, matrix, special

t0 = time.time()
build.build_driver()
special.setup()
for kind in ("msan", "tsan"):
    build.sanitizer_sysroot(kind)
for t in sorted({c.target for c in matrix.MIRI + matrix.MIRI_VALUES}):
    build.build_miri_sysroot(t)
build.build_agents(matrix.CFGS)
build.build_agents(matrix.THREADED + matrix.SANITIZED + matrix.RACES + matrix.COVER + matrix.COVER_EMULATED + matrix.MIRI + matrix.MIRI_VALUES)
print(f"setup done in {time.time() - t0:.0f} s")
