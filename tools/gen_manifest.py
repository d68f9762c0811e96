#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from jobs import JOBS, LEVEL, NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none: the checks use only public API", "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in JOBS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
            "thorough_cmd": f"python3 check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
            "technique": NOTES[p][0], "level": LEVEL, "level_note": NOTES[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m["notes"] = "See DESIGN.md. Specification language: TLA+ (TLC)."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
