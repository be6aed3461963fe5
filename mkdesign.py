#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md from DESIGN.in.md and the check modules."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, "/repo/src"]
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
notes = json.load(open(here + "/design_notes.json"))
out = []
for p in props:
    m = importlib.import_module("mc." + p["id"].lower())
    n = notes[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append("Oracle: " + n["oracle"] + "\n")
    out.append("Beyond the tests: " + n["reach"] + "\n")
    for f in m.FAMILIES:
        out.append(f"* `{f.name}`: {f.bounds}")
    out.append("")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("")
k = json.load(open(here + "/known_findings.json"))
find = "\n".join(f"* `{f['id']}` ({f['property']}): {f['what']}." for f in k["findings"])
rows = json.load(open(here + "/detection.json"))
seed = "| change | property | needs | caught by quick check | note |\n| --- | --- | --- | --- | --- |\n"
for i in sorted(os.listdir(here + "/seeded")):
    meta = json.load(open(f"{here}/seeded/{i}/meta.json"))
    r = rows.get(i, ["?", ""])
    seed += f"| {i} | {meta['property']} | {meta['needs']} | {r[0]} | {r[1]} |\n"
t = open(here + "/DESIGN.in.md").read()
t = t.replace("@@CHECKS@@", "\n".join(out)).replace("@@FINDINGS@@", find).replace("@@SEEDED@@", seed)
open(here + "/DESIGN.md", "w").write(t)
