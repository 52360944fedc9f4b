#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development helper, used by no check)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append((m['property'], d.name, m['needs']))
rows.sort()
t = '| property | bug | needs |\n|---|---|---|\n' + '\n'.join(f'| {p} | {i} | {n} |' for p, i, n in rows)
f = root / 'DESIGN.md'
s = f.read_text()
s = re.sub(r'<!-- bugs -->.*?<!-- end -->', lambda _: f'<!-- bugs -->\n{t}\n<!-- end -->', s, flags=re.S)
f.write_text(s)
