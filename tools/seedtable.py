"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
rows = ['| change | property | needs |', '|---|---|---|']
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')[:150]} |")
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
p = V / 'DESIGN.md'
s = p.read_text()
s = s.replace('SEED_TABLE', t) if 'SEED_TABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
p.write_text(s)
