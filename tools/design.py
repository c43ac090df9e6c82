#!/usr/bin/env python3
"""Writes DESIGN.md."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/props"]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, files=files, mech=mech, na=na))


exec(open(V + "/props/meta.py").read())
out = open(V + "/tools/design_head.md").read()
kf = json.load(open(V + "/known_findings.json"))["findings"]
f = "\n".join("* " + (x["fixed"].replace("fixed: property=", "") if "fixed" in x else "OPEN: " + x["property"] + " " + x["what"]) for x in kf)
out = out.replace("FINDINGS\n", f + "\n")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
t = "| bug | property | needs | check |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    t += f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'caught')} |\n"
out = out.replace("SEEDS\n", t)
for p in P:
    out += f"\n### {p['id']} {p['title']}\n\n"
    if p["na"]:
        out += f"Not applicable: {p['na']}\n"
        continue
    sp = importlib.util.spec_from_file_location("m", f"{V}/props/{p['id']}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    s = m.spec("quick")
    out += f"*Encoded:* {'; '.join(w for _, w in p['mech'])} ({', '.join(p['files'])}).\n\n"
    out += f"*Against:* {s.explanation}\n\n"
    out += f"*Quick bounds:* {len(s.progs)} compiled programs, {len(s.jobs)} symbolic instances; {s.bounds}.\n\n"
    out += "*Assumed:* " + "; ".join(s.assumptions) + ".\n"
    e = f"{V}/evidence/{p['id']}.json"
open(V + "/DESIGN.md", "w").write(out)
