#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl", encoding="utf-8")]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    c = conf.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    if c.get("not_applicable"):
        m["not_applicable"].append({"property": p["id"], "reason": c["not_applicable"]})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w", encoding="utf-8"), ensure_ascii=False, indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not claimed")
