#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (property -> technique and note)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from manifest_notes import NOTES, NOT_APPLICABLE
checks = []
for p in sorted(check.PLAN):
    tech, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = []
for p in props:
    if p not in check.PLAN:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(libsecp256k1_mc)", "enable": "RUSTFLAGS=\"--cfg libsecp256k1_mc\"", "source_commits": ["2a2c66a"]},
     "notes": "The hook only re-exports internal recodings and batch conversions to the checks of C16 and C17. Repaired defects are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
