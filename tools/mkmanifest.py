#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a lib/p_<id>.py is claimed."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "lib", "p_%s.py" % i)):
        na.append({"property": i, "reason": "specification and conformance harness not built yet"})
        continue
    m = importlib.import_module("p_" + i)
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": "TLA+ specification model-checked with TLC; generated behaviours replayed on the real code and recorded traces validated against the specification",
                   "level": "model_checking",
                   "level_note": getattr(m, "NOTE", "The specification's invariants are checked exhaustively by TLC within the stated constants; the code is bound to it by conformance on TLC-generated and random histories, so code behaviour outside the explored histories is extrapolated.")
                   + " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: the harness drives the public API only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
