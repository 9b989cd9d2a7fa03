#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from registry import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRUST = ("Exhaustive only for the small configurations of the TLA+ model; the real code is judged on the recorded "
         "executions (every event compared with what the specification allows). Trusted: the harness's own BIP-324 "
         "implementation (self-tested on the published vectors), libsecp256k1, TLC.")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "One specification (spec/*.tla, TLA+/TLC) and one harness crate (harness/) for all checks; see DESIGN.md. "
              "No hooks in /repo: everything is observed through the public API."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": NOTES.get(i, {}).get("technique", "TLA+ specification: TLC model checking + TLC trace validation of recorded executions and replayed generated behaviours"),
        "level": CHECKS[i].get("level", "model_checking"),
        "level_note": NOTES.get(i, {}).get("note", "") + (" " if i in NOTES else "") + TRUST,
    })
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
