#!/usr/bin/env python3
"""Fills the counted parts of DESIGN.md from seeded/ and known_findings.txt (run by hand): tools/design.py TEMPLATE."""
import json
import pathlib
import re
import sys

R = pathlib.Path(__file__).resolve().parent.parent
t = (R / "tools" / "DESIGN.in.md").read_text()
bugs = sorted(p for p in (R / "seeded").iterdir())
rows = []
for b in bugs:
    m = json.loads((b / "meta.json").read_text())
    rows.append("| %s | %s | %s | %s |" % (b.name, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
fix = [l for l in (R / "known_findings.txt").read_text().splitlines() if l.startswith("fixed:")]
com = {l.split()[2] for l in fix}
na = json.loads((R / "MANIFEST.json").read_text())["not_applicable"]
t = (t.replace("@BUGS@", "\n".join(rows)).replace("@NBUG@", str(len(bugs))).replace("@NFIX@", str(len(fix))).replace("@NCOM@", str(len(com)))
     .replace("@NA@", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in na) or "None: every property listed is decided by runtime monitoring."))
(R / "DESIGN.md").write_text(t)
