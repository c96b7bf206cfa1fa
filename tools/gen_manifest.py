#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness/ID_*.cc, the rest not claimed."""
import json, glob, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes and glob.glob(V + "/harness/%s_*.cc" % i):
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": notes[i]["technique"],
            "level": "model_checking",
            "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": notes.get("na", {}).get(i, "no driver yet: the check for this property is not built")})
commits = notes.get("hook_commits", [])
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "EUROPA_VERIF_HOOKS", "enable": "no hooks are needed: the drivers are compiled with -fno-access-control", "source_commits": commits},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
