#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (suppress nothing) and recorded findings (tools/findings/*.json)."""
import glob, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
PROP = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    for k, p in PROP:
        if k in s:
            out.append({"status": "fixed", "property": p, "entry": "fixed: property=%s %s %s" % (p, h, s[5:])})
            break
    else:
        raise SystemExit("no property for: " + s)
for f in sorted(glob.glob(os.path.join(V, "tools", "findings", "*.json"))):
    out.append(json.load(open(f)))
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
