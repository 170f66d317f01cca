#!/usr/bin/env python3
"""Prints the DESIGN.md table of planted changes from seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| change | property | needs | breaks |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
