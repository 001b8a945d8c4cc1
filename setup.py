#!/usr/bin/env python3
"""setup_cmd: checks the tools are there and precompiles the simulator itself (checks rebuild everything that includes /repo)."""
import shutil, subprocess, sys, os
V = os.path.dirname(os.path.abspath(__file__))
for t in ("clang++", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
os.makedirs(V + "/.build", exist_ok=True)
for f in ("rt", "frame"):
    r = subprocess.run(["clang++", "-O1", "-std=c++17", "-w", "-c", V + "/sim/%s.cpp" % f, "-o", V + "/.build/%s.setup.o" % f])
    if r.returncode: sys.exit(r.returncode)
print("setup ok")
