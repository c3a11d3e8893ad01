#!/usr/bin/env python3
"""Regenerates known_findings.json: the genuine defects that were repaired (fix: commits of /repo, mapped to the
property they broke) and those that are only recorded (tools/known.json). Never run by a check."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools", "fixmap.tsv")) if l.strip()]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5507b16..HEAD"]).decode().splitlines()
res = []
for l in log:
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    s = s[5:]
    p = [m[0] for m in MAP if s.startswith(m[1])]
    if not p:
        raise SystemExit("no property for: " + s)
    res.append({"property": p[0], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p[0], h, "before: not so - " + s)})
kn = os.path.join(V, "tools", "known.json")
if os.path.exists(kn):
    res += json.load(open(kn))
json.dump({"findings": res}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(res), "findings")
