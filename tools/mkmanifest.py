#!/usr/bin/env python3
"""Regenerates MANIFEST.json. A property without an entry in T is listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
T = {}
def t(id, technique, note, level="exploration"):
    T[id] = (MON + technique, note, level)

exec(open(os.path.join(V, "tools", "manifest_entries.py")).read())

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        te, no, le = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": te, "level": le, "level_note": no})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Everything is observed at pkgr's boundary (R processes, HTTP requests, file trees, output), so there are no hooks in /repo. VERIF_SEED picks the case list; VERIF_REPO points a check at another tree (used for planted bugs)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
