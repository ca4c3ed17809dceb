#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties named on the command line (all claimed ones by default)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = {"N01": "constant table: no schedule, clock, fault or interleaving",
      "N02": "pure function of its input: no schedule, clock, fault or interleaving",
      "N03": "timing side channels are outside what a simulator of logical behaviour observes"}
note = json.load(open(os.path.join(V, "sim", "meta.json")))
want = sys.argv[1:] or [p["id"] for p in props if p["id"] not in na]
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
for p in props:
    i = p["id"]
    if i in want:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: seeded search, recorded decisions, minimised replay",
                            "level": "exploration", "level_note": note.get(i, {}).get("level_note", "seeded sampling of schedules and faults over the real code; nothing is exhaustive")})
    elif i not in na:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
