#!/usr/bin/env python3
"""Prints the table of seeded bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    print("| `%s` | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/")))
