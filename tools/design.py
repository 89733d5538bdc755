#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, the recorded findings and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))
find = []
for f in sorted(glob.glob(os.path.join(V, "tools", "findings", "*.json"))):
    d = json.load(open(f))
    find.append("* **%s** (`%s`): %s" % (d["property"], os.path.basename(f)[:-5], d.get("what", d.get("entry", ""))))
n = sum(1 for k in kf if k["status"] == "fixed")
find.append("\n%d defects were repaired by `fix:` commits in /repo; each is listed in known_findings.json as `fixed: ...`." % n)
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], caught.get(i, "not yet measured")))
s = s.replace("@@FIND@@", "\n".join(find)).replace("@@SEEDS@@", "\n".join(rows))
assert "@@" not in s, s[s.index("@@"):][:40]
open(os.path.join(V, "DESIGN.md"), "w").write(s)
