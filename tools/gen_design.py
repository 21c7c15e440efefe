#!/usr/bin/env python3
"""Writes DESIGN.md from design_body.md, known_findings.json and the planted bugs."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
body = (ROOT / "tools" / "design_body.md").read_text()
known = json.loads((ROOT / "known_findings.json").read_text())
fixes = "\n".join(f"* {k['property']} ({k['commit']}): {k['what'].split(' ', 3)[3]}" for k in known if k["status"] == "fixed")
res_path = ROOT / "tools" / "seeded_results.json"
res = json.loads(res_path.read_text()) if res_path.exists() else {}
rows = ["Each was written from the property's text and the code, confirmed in a scratch copy (stable tests pass, demo fails with it and passes",
        "without), and run against the quick check of its property. No check reads /verif/seeded.", "", "| bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    rows.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {res.get(d.parent.name, 'not run')} |")
(ROOT / "DESIGN.md").write_text(body.replace("NPROPS", str(sum(1 for _ in open(ROOT / "properties.jsonl")))).replace("FIXES", fixes).replace("SEEDED", "\n".join(rows)))
