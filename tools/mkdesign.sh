#!/bin/bash
# Rewrites the table of seeded bugs at the end of DESIGN.md.
cd "$(dirname "$0")/.." || exit 1
n=$(grep -n '^| change | property' DESIGN.md | cut -d: -f1)
head -n $((n+1)) DESIGN.md > DESIGN.md.tmp && python3 tools/catch.py >> DESIGN.md.tmp && mv DESIGN.md.tmp DESIGN.md
