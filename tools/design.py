#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the rules of the last runs
(evidence/*.json), the planted bugs and design_tail.md."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
out = [open(here + "/design_head.md").read().rstrip() + "\n"]
src = {}
for f in sorted(os.listdir(root + "/checker")):
    if f.endswith(".go"):
        for i in re.findall(r'ID:\s*"(C\d+)"', open(f"{root}/checker/{f}").read()):
            src[i] = f
out.append("\n## The properties\n\nPer property: what is decided, by which rule, on how many obligations in the\nlast run on the unchanged tree, and why a test cannot settle it.\n")
for p in PROPS:
    i = p["id"]
    out.append(f"\n### {i}. {p['title']}\n\n{p['statement']}\n")
    ev = f"{root}/evidence/{i}.json"
    if i in NA:
        out.append(f"\nNot applicable: {NA[i]}\n")
        continue
    if not os.path.exists(ev):
        out.append("\nNo check yet.\n")
        continue
    c = json.load(open(ev))["coverage"]
    out.append(f"\n* Technique: {p['tech']} (`checker/{src.get(i, '?')}`).\n* Rule: {c['explanation']}\n* Quantified over: {p['quant']}. Last run: {c['obligations']} obligations, {c.get('functions_analysed', c.get('functions_in_scope', 0))} functions.\n* Why tests cannot settle it: {p['why']}\n")
out.append("\n## Planted bugs\n\n`seeded/<id>/` holds the change, a demonstration and what it needs. Caught by the\ncheck of the property it names (vcheck runs them; `tools/seed.py ID` rebuilds one).\n\n| planted bug | breaks | needs |\n|---|---|---|\n")
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    out.append(f"| {d} (caught by {m['property']}) | {m['what_it_breaks']} | {m['needs']} |\n")
out.append("\n" + open(here + "/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("".join(out))
