#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "checks"))
from config import CHECKS, NOT_APPLICABLE, HOOKS  # noqa: E402

props = [json.loads(l)["id"] for l in (VERIF / "properties.jsonl").read_text().splitlines() if l.strip()]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    cmd = "python3 checks/run.py " + p
    checks.append({
        "property": p,
        "quick_cmd": cmd,
        "thorough_cmd": cmd,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: " + c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")}
                       for p in props if p not in CHECKS],
    "notes": "Every check rebuilds from /repo's working tree (content-hash cache in /verif/build). "
             "Replay a violation with: python3 checks/run.py --replay <file>. "
             "Evidence is rewritten by every run.",
}
if HOOKS:
    m["hooks"] = HOOKS
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
