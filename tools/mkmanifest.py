#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the property list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
import checks
CH = checks.load()
NA = {}
out = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: the harness interposes system calls and thread primitives at link time and builds /repo's own sources. " 
                "Fixes and known findings are listed in KNOWN_FINDINGS.txt. ./check <id> runs one check; VERIF_KEEP=1 keeps its run directory."}
for p in props:
    i = p["id"]
    if i in CH:
        t, n = checks.describe(i)
        out["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
                              "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "without")
