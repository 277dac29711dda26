#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md; argument: file with the ids that are missed"""
import json, glob, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = dict(l.strip().split(" ", 1) for l in open(sys.argv[1]) if l.strip()) if len(sys.argv) > 1 else {}
p = f"{V}/DESIGN.md"
s = open(p).read()
mark = "Which check catches which (quick tier):\n"
at = s.index(mark) + len(mark)
rows = ["", "| Planted bug | Needs | Result |", "|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {re.sub(r'\s+', ' ', m['needs']).replace('|', '/')} | " + (missed.get(i) or f"caught by {m['property']}") + " |")
open(p, "w").write(s[:at] + "\n".join(rows) + "\n")
