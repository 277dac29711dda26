#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from spec import PROPS, NA
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in PROPS:
        checks.append({
            "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
            "technique": "symbolic execution of the compiled LLVM IR of the real code, decided by z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "every path within the bounds is explored symbolically; bounds: " + PROPS[p]["bounds"],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
