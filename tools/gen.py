#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand)."""
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

ROOT = HERE.parent
with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS + [n[0] for n in NOT_APPLICABLE]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("obs", ["public API return values"]), "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    if not (ROOT / "checks" / (p["id"] + ".py")).exists():
        print("no check yet:", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p.get("tech", "runtime monitoring: online reference-model monitor over generated workloads"),
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import torch, scipy, sklearn, matplotlib, optuna\"",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": r} for p, r in NOT_APPLICABLE],
    "notes": "All checks drive the real dhg package imported from /repo's working tree (pure Python: nothing to compile, no "
             "hooks needed); monitors are in checks/ and lib/. Known and fixed defects: known_findings.txt.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
