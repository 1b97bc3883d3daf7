#!/usr/bin/env python3
"""Rewrites the table of units at the end of DESIGN.md from units/*.c and specs/*.py."""
import os, re, sys, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
sys.argv = ["x"]
import importlib
run = importlib.import_module("run")
units = run.all_units() + run.vcg_units()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = ["", "Each unit puts the named functions under contract. `vcg` and `proof` units are discharged for all inputs; `enum` and `bounded`", "ones stand in within the bound given and are never counted as proved.", ""]
for p in props:
    us = [u for u in units if p["id"] in u.props and u.kind != "search"]
    if not us: continue
    out.append("**%s** %s" % (p["id"], p["title"])); out.append("")
    for u in sorted(us, key=lambda u: (u.kind not in ("vcg", "proof"), u.name)):
        fs = " ".join(f.replace("fiftyoneDegrees", "") for f in (u.contracts or u.enforce))
        b = "; ".join(u.multi["bound"]) if u.kind not in ("vcg", "proof") else ""
        out.append("- `%s` (%s, %s): %s%s" % (u.name, u.kind, os.path.relpath(u.file, V), fs, (" — bound: " + b) if b else ""))
    out.append("")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("## Units")
open(p, "w").write(s[:i] + "## Units\n" + "\n".join(out))
