#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, harness/checks and the notes below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MODULES = json.loads((ROOT / "tools" / "levels.json").read_text())
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "harness" / "checks" / f"{i}.py").exists() and i in MODULES:
        m = MODULES[i]
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique=f"TLA+ specification {m['spec']} model-checked with TLC; {m['bind']}",
            level="model_checking", level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks are needed in /repo. Every check re-runs TLC on spec/*.tla and replays what it emits on /repo/src "
                 "(imported directly), or records executions of /repo/src and checks them against the specification with TLC.")
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
