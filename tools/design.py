#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_notes.py, the checks (literal
bounds, assumptions), the evidence files (costs), known_findings.txt and seeded/."""
import ast
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
ns = {}
exec((root / "tools/design_notes.py").read_text(), ns)
NOTES = ns["NOTES"]
old_costs = root / "tools/costs.json"
costs = json.loads(old_costs.read_text()) if old_costs.exists() else {}
for path in sorted((root / "evidence").glob("*.json")):
    d = json.loads(path.read_text())
    if d["violations"] or d["tier"] != "quick":
        continue
    c = d["coverage"]
    costs[d["property"]] = dict(
        wall=round(d["wall_s"]),
        paths=c["states"],
        queries=c["queries_discharged"],
        assertions=c["assertions"],
        functions=len(c["functions_encoded"]),
        bounds={k: v["bounds"] for k, v in c["harnesses"].items()},
        stubs=sorted({s for v in c["harnesses"].values() for s in v["stubs"]}),
        assumptions=d["assumptions"],
    )
old_costs.write_text(json.dumps(costs, indent=1, sort_keys=True) + "\n")
seeds = {}
for path in sorted(root.glob("seeded*/*/meta.json"), key=lambda p: p.parent.name):
    d = json.loads(path.read_text())
    seeds.setdefault(d["property"], []).append((path.parent.name, d["needs"]))
fixed = {}
for line in (root / "known_findings.txt").read_text().splitlines():
    if line.startswith("fixed: property="):
        prop, commit, what = line[len("fixed: property="):].split(" ", 2)
        fixed.setdefault(prop, []).append((commit, what))
mutants = json.loads((root / "tools/mutants/results.json").read_text()) if (
    root / "tools/mutants/results.json").exists() else {}
na = dict(
    line.split(": ", 1)
    for line in (root / "tools/not_applicable.txt").read_text().splitlines()
    if line.strip()
)
out = [(root / "tools/design_head.md").read_text()]
out.append("\n## Properties\n")
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    check = root / "checks" / f"{i.lower()}.py"
    if not check.exists() or i in na:
        out.append(f"Not claimed: {na.get(i, 'no check yet')}\n")
        continue
    out.append(ast.get_docstring(ast.parse(check.read_text())).replace("\n", " ") + "\n")
    for note in NOTES.get(i, "").splitlines():
        out.append(note + "\n")
    c = costs.get(i)
    if c:
        out.append("Bounds (quick; larger ones of the thorough tier in parentheses where they differ):\n")
        out += [f"* `{k}`: {v}" for k, v in c["bounds"].items()]
        if c["assumptions"]:
            out.append("\nAssumptions:\n")
            out += [f"* {a}" for a in c["assumptions"]]
        if c["stubs"]:
            out.append("\nStand-ins: " + "; ".join(c["stubs"]))
        out.append(
            f"\nCost (quick): {c['wall']} s; {c['paths']} paths, {c['assertions']} assertions, "
            f"{c['queries']} queries, {c['functions']} functions of /repo executed.\n"
        )
    if fixed.get(i):
        out.append("Defects found and repaired:\n")
        out += [f"* {c} {w}" for c, w in fixed[i]]
        out.append("")
    if seeds.get(i):
        out.append("Planted changes (`seeded/` and `seeded_more/`), all caught:\n")
        out += [f"* `{n}`: {w}" for n, w in seeds[i]]
        out.append("")
    m = mutants.get(i)
    if m:
        out.append(
            f"Other planted changes (`tools/mutants/`): {m['caught']} caught of {m['total']}"
            + (f"; not caught: {m['missed']}" if m.get("missed") else "") + ".\n"
        )
out.append((root / "tools/design_tail.md").read_text())
(root / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
