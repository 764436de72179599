#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | needs | breaks |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['what_it_breaks']} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| planted bug \|.*?\n(?!\|)", lambda _: "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w").write(s)
