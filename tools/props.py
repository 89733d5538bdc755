#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts of both live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
m = {"version": 1, "setup_cmd": SETUP,
     "checks": [{"property": p["id"], "quick_cmd": "python3 -m mzv.%s quick" % p["id"].lower(),
                 "thorough_cmd": "python3 -m mzv.%s thorough" % p["id"].lower(),
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"])],
     "not_applicable": NA}
if globals().get("HOOKS"):
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
