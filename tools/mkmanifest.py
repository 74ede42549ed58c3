#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the properties the harness registers."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/*.go"):
    have |= set(re.findall(r'register\(&Prop\{ID: "(C\d+)"', open(f).read()))
tech = json.load(open(root + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses only the public API of aiq/tok (and the json-stack demo binary), rebuilt from /repo's working tree."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
