"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append((d['property'], m.parent.name, d['what_it_breaks'], d['needs'], d.get('caught_by', [d['property']])))
out = ['| property | planted bug | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for p, i, b, n, c in sorted(rows):
    out.append(f'| {p} | {i} | {b} | {n} | {", ".join(c) or "missed"} |')
f = root / 'DESIGN.md'
s = f.read_text()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m[1] + '\n'.join(out) + '\n' + m[2], s, flags=re.S)
f.write_text(s)
