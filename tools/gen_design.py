#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the table of planted changes (from seeded/*/meta.json)."""
import json, glob, os
V = '/verif'
# planted changes their property's check does not catch: id -> why
MISSED = {}
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    c = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {i} | {m['property'] if i not in MISSED else 'missed: ' + MISSED[i]} | {c(m['needs'])} |")
s = open(V + '/tools/design_head.md').read().rstrip() + f"""

## Planted changes

{len(rows)} planted changes under `seeded/`, each written from a property's text
and the code. `tools/plant.py` confirms them (applies, touches original lines,
builds, stable tests pass, demonstration passes without and fails with) and runs
the check of their property. The second column names the check that catches the
change at its quick tier.

| change | caught by | needs |
|---|---|---|
""" + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
