"""Rewrites the "fixed" list of known_findings.json from fixes.txt (commit property) and the commit subjects in /repo."""
import json, subprocess
from pathlib import Path
root = Path(__file__).parent.parent
f = root / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"] = []
for line in (root / "tools/fixes.txt").read_text().split("\n"):
    if line.strip():
        h, p = line.split()
        s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
        hh, subj = s.split(" ", 1)
        d["fixed"].append(f"fixed: property={p} {hh} {subj.removeprefix('fix: ')}")
f.write_text(json.dumps(d, indent=1) + "\n")
