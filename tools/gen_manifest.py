#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from claims.py and properties.jsonl."""
import json, os, claims
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in claims.CLAIMS:
        c = claims.CLAIMS[i]
        cmd = "python3 tools/check.py " + i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "evidence_file": "evidence/%s.json" % i,
                       "technique": "static analysis: " + claims.TECH[i], "level": "other",
                       "level_note": c["rule"] + " Analyses: " + ", ".join("%s (%s)" % (a, claims.ANALYSES[a]["text"]) for a in c["analyses"]) + "." + c.get("note", "")})
    else: na.append({"property": i, "reason": claims.NA.get(i, claims.NA_PENDING)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Nothing of /repo is executed. All checks share analysis results through build/cache, keyed by the content of /repo/src and of the analyser; a changed source is re-analysed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
