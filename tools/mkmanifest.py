#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a check is claimed, the rest is listed with a reason."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import checks
TECH = {
    "default": "TLA+ specification: TLC model checking + replay of TLC-generated behaviours into the code",
}
TECH.update(getattr(checks, "TECHNIQUE", {}))
NOTE = getattr(checks, "NOTE", {})
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
            "level_note": NOTE.get(i, "The specification is checked exhaustively within small bounds; the code is bound to "
                          "it by replaying generated behaviours in many chunkings (bounded, seeded exploration).")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
