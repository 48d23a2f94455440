#!/usr/bin/env python3
"""DESIGN.md = tools/design.in with the tables filled in from table.py, seeded/ and known_findings.json."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.in").read()
pr = []
for p in PROPS:
    if p.get("na"):
        continue
    pr.append(f"### {p['id']} {p['title']}\n\n{p.get('design', '')}\n".replace("\n\n\n", "\n"))
na = [f"* {p['id']} {p['title']}: {p['na']}" for p in PROPS if p.get("na")]
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
kf = json.load(open(V + "/known_findings.json"))
fixed = ["* " + k["what"].replace("fixed: property=", "") for k in kf if k["status"] == "fixed"]
known = ["* " + k["property"] + " " + k["what"] for k in kf if k["status"] == "known"]
for a, b in (("PROPS", pr), ("SEEDS", seeds), ("FIXED", fixed), ("KNOWN", known or ["(none)"]), ("NA", na or ["(nothing)"])):
    t = t.replace("{" + a + "}", "\n".join(b))
open(V + "/DESIGN.md", "w").write(t)
