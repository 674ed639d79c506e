#!/usr/bin/env python3
"""Setup: nothing is built ahead (every check builds from /repo's current tree); this only makes sure the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.abspath(__file__))
miss = [t for t in ("g++", "clang++", "valgrind", "python3") if not shutil.which(t)]
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for f in ("oracle/ucd17.txt", "oracle/stale.txt", "known-findings.txt"):
    if not os.path.exists(os.path.join(V, f)):
        miss.append(f)
if miss:
    print("missing:", " ".join(miss))
    sys.exit(1)
print("ready")
