#!/usr/bin/env python3
"""Writes known_findings.jsonl: the open findings of tools/findings.json plus one 'fixed:' line per fix: commit of /repo."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
prop = {}
for l in open(os.path.join(here, "fixes.txt")):
    p, s = l.strip().split(" ", 1)
    prop[s] = p
out = []
for f in json.load(open(os.path.join(here, "findings.json"))):
    out.append(json.dumps(f, ensure_ascii=False))
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        out.append("fixed: property=%s %s %s" % (prop[s], h, s[4:].strip()))
open(os.path.join(here, "..", "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
