#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in props.py.
A property is claimed when the checker registers a check for it."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
have = set(subprocess.run([root + "/bin/checker", "-list"], capture_output=True, text=True).stdout.split())
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    elif p["id"] in have:
        c = "./check.sh " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c,
            "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
