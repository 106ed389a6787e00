#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; every property of properties.jsonl
not in CLAIMED is listed under not_applicable."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = json.load(open(os.path.join(root, "tools", "claims.json")))
checks, na = [], []
for p in props:
    c = T.get(p["id"])
    if not c or "reason" in c:
        na.append({"property": p["id"], "reason": (c or {}).get("reason", "check under construction")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "model_checking"),
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks in /repo; C22 substitutes package sync with a build overlay generated from /repo's working tree at check time", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. fix: commits in /repo are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
