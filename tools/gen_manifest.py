#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN

checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in PLAN:
        continue
    pl = PLAN[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check " + p,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": pl.get("technique", "TLA+ specification model checked with TLC; behaviours generated from it by TLC replayed into the real code; recorded executions of the real code validated against it as TLA+ traces (TLC)"),
        "level": "model_checking",
        "level_note": pl.get("note", "The specification is explored exhaustively within the constants of its cfg files, and every generated behaviour is replayed; recorded executions are sampled (seeded), and each is judged completely by the specification."),
    })
ids = {json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
na = [{"property": p, "reason": "check not built yet"} for p in sorted(ids - set(PLAN))]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
