#!/usr/bin/env python3
"""Sanity check of the toolchain; the checks build what they need themselves."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for t in ("java", "cmake", "ninja", "mpirun", "g++"):
    if not shutil.which(t): print("missing", t); sys.exit(1)
bad = [m for m in sorted(os.listdir(vlib.SPECS)) if m.endswith(".tla") and
       subprocess.run(["java", "-DTLA-Library=" + vlib.SPECS, "-cp", vlib.JARS, "tla2sany.SANY", m], cwd=vlib.SPECS, capture_output=True).returncode]
print("specifications that do not parse:", bad or "none")
sys.exit(1 if bad else 0)
