#!/usr/bin/env python3
"""MANIFEST.json from checks/*/check.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import glob
props = [json.load(open(f)) for f in glob.glob(f"{V}/checks/*/property.json")]
x = f"{V}/tools/extra_properties.jsonl"
if os.path.exists(x):
    props += [json.loads(l) for l in open(x) if l.strip()]
props.sort(key=lambda p: p["id"])
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
NA = json.load(open(f"{V}/tools/not_applicable.json"))
for p in props:
    i = p["id"]
    c = f"{V}/checks/{i}/check.json"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(c):
        d = json.load(open(c))
        checks.append({"property": i, "quick_cmd": f"python3 lib/run.py {i}", "thorough_cmd": f"python3 lib/run.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": d["technique"], "level": d["level"], "level_note": d["level_note"],
                       **({"theorems": d["theorems"]} if d.get("theorems") else {})})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks extract the functions from /repo's text on every run", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Contract-based deductive verification: contracts kept in checks/<id>/*.rs are spliced mechanically into the functions of /repo's current tree and discharged by Verus (Z3) or Kani (CBMC); a native driver compiled from the same extracted text replays/searches concrete inputs."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
