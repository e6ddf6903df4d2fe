#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (one entry per built check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/tools/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        if "not_applicable" in c:
            out["not_applicable"].append({"property": i, "reason": c["not_applicable"]})
            continue
        out["checks"].append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        out["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
out["notes"] = "run.sh builds /verif/mc/cmd/<id> against the current /repo tree (schedule checks through a generated overlay, see DESIGN.md); no hooks are committed in /repo."
json.dump(out, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
