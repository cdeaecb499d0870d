#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
TECH = json.load(open(root / "tools/techniques.json"))
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in TECH:
        NA.setdefault(i, "no check built yet")
        continue
    t = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t["technique"],
        "level": "exploration",
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks in /repo: every property is observed at public outputs (emitted files, return values, evaluated circuits).",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
