#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na, level=level))


exec(open(V + "/props/meta.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(f"{V}/props/{p['id']}.py"):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 jf.py check {p['id']} quick", "thorough_cmd": f"python3 jf.py check {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 jf.py setup", "checks": checks, "not_applicable": na}, f, indent=1)
