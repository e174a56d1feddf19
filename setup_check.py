#!/usr/bin/env python3
"""Setup: nothing is prebuilt (checks compile /repo's tree themselves); make sure the tools are there."""
import os, shutil, subprocess, sys
miss = [t for t in ("g++", "python3-vt") if not shutil.which(t)]
if miss: sys.exit("missing: " + " ".join(miss))
for d in ("evidence", "replays"): os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
print("ok")
