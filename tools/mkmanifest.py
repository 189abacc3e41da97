#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import glob, json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {}   # id -> override
NOTE = {}
exec(open(os.path.join(H, "tools", "techniques.py")).read())
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if glob.glob(os.path.join(H, "props", i + "*.cpp")):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH.get(i, DEFAULT), level="exploration", level_note=NOTE.get(i, DEFNOTE)))
    else:
        na.append(dict(property=i, reason="no check yet: its harness is still being built"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks)
if na: m["not_applicable"] = na
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
