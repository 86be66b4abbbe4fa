#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed when checks/cNN.py is there."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NOT = dict(
    line.split(": ", 1)
    for line in (root / "tools/not_applicable.txt").read_text().splitlines()
    if line.strip()
)
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / "checks" / f"{i.lower()}.py").exists() and i not in NOT:
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check {i}",
                thorough_cmd=f"./check {i} --tier thorough",
                technique="symbolic execution of the real Python code, decided by z3",
                level="model_checking",
                level_note="Every value within the bounds reported in the evidence "
                "file; assumes the stand-ins and the arithmetic model listed there "
                "and in DESIGN.md.",
            )
        )
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check yet")))
(root / "MANIFEST.json").write_text(
    json.dumps(
        dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), indent=1
    )
    + "\n"
)
print(len(checks), "checks", len(na), "not claimed")
