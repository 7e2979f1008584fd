#!/usr/bin/env python3
"""setup_cmd: check the tools are there and prepare the extracted source tree."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "make"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
import vf
t = vf.Tree()
t.prepare()
print("source tree prepared in", t.dir)
