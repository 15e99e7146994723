"""Regenerates properties.jsonl and MANIFEST.json from spec.py."""
import json, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).parent))
from spec import PROPERTIES, NOT_APPLICABLE
root = Path(__file__).parent.parent
claimed = {p.stem.upper() for p in (root / "mmv" / "checks").glob("p[0-9][0-9].py")}
with open(root / "properties.jsonl", "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = list(NOT_APPLICABLE)
for p in PROPERTIES:
    if p["id"] not in claimed and p["id"] not in {n["property"] for n in na}:
        na.append({"property": p["id"], "reason": "check under construction"})
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, jax, numba' && chmod +x ./check",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": p["_technique"], "level": "exploration", "level_note": p["_note"]}
        for p in PROPERTIES if p["id"] in claimed
    ],
    "not_applicable": na,
    "notes": "No hooks in /repo: the monitors observe public objects and calls. ./check --replay <file> re-runs one recorded violation.",
}
(root / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
