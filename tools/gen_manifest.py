#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(
            property=i, quick_cmd="python3 vp.py check %s" % i, thorough_cmd="python3 vp.py check %s --tier thorough" % i,
            technique="symbolic execution of clang's LLVM IR of the real header, every assertion decided by z3 over all inputs within bounds; counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value within the stated bounds (%s). Outside: %s. Trusted: clang's IR lowering, the engine's IR semantics (validated by native replay of one model per path), z3." % (
                PROPS[i]["bounds"], PROPS[i].get("outside") or "payload types and histories beyond those encoded")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not yet built")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 vp.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo. See DESIGN.md; known findings in known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
