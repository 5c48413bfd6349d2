#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, TECH, LEVELN, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 tools/check.py {p} quick",
        "thorough_cmd": f"python3 tools/check.py {p} thorough",
        "technique": TECH.get(p, TECH["*"]),
        "level": "model_checking",
        "level_note": LEVELN.get(p, LEVELN["*"]),
    } for p in props if p in PLAN],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check still being built")} for p in props if p not in PLAN],
    "notes": "No hooks: every check uses only the public interface of the crates. Checks build into /verif/target.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
