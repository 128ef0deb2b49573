#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in lib/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", "check_%s.py" % i.lower())):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s" % i, "thorough_cmd": "python3 bin/check %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", "TLA+ specification, TLC; trace validation of the real code"),
                       "level": "model_checking", "level_note": n.get("note", "")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup", "checks": checks, "not_applicable": na}
h = os.path.join(V, "tools", "hooks.json")
if os.path.exists(h):
    m["hooks"] = json.load(open(h))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
