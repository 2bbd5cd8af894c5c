#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = check.NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": NOTE.get(i, NOTE["*"])[0],
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["*"])[1]})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": na,
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the "
               "harnesses compile the unchanged sources of /repo",
               "source_commits": []}}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
