#!/usr/bin/env python3
"""replay.py FILE: runs the inputs of a replay file against /repo's current code."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
text = open(sys.argv[1]).read()
unit = re.search(r"# replay with unit: (\S+)", text).group(1)
vals = [int(l) for l in text.split("\n") if l and not l.startswith("#")]
if not vals:
    print("no inputs in this file: the failed obligation is its content"); sys.exit(0)
us = [u for u in run.all_units() if u.name == unit]
w = tempfile.mkdtemp(prefix="vp-replay-")
try:
    b = run.Builder(w); exe = b.native(us[0])
    hit, out = run.replay(exe, vals, os.path.join(w, "in"))
    print("violated" if hit else "not violated", out)
    sys.exit(1 if hit else 0)
finally:
    shutil.rmtree(w)
