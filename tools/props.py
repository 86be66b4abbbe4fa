#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
from pathlib import Path

S = "src/fluidimage/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                mechanism=[dict(name=a, where=S + b) for a, b in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


exec((Path(__file__).parent / "props_data.py").read_text())

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
