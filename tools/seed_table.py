#!/usr/bin/env python3
"""Prints the table of planted bugs (DESIGN.md) from seeded/*/meta.json."""
import glob, json, os
print("| bug | property | needs | caught by |")
print("|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    print("| %s | %s | %s | %s quick |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/").replace("\n", " "), d["property"]))
