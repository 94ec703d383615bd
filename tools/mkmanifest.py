#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools" / "notes.json").read_text())
checks, na = [], []
for i in ids:
    if (V / "harness" / "checks" / f"{i.lower()}.py").exists() and i in NOTES:
        t, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "level": "exploration", "technique": t, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
