"""Rewrite the generated parts of DESIGN.md: number of repaired defects, table of planted bugs"""
import json
import re
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
p = VERIF / 'DESIGN.md'
s = p.read_text()
n = sum(x.startswith('fixed:') for x in (VERIF / 'known_findings.txt').read_text().split('\n'))
s = re.sub(r'lists them: \S+ repaired', f'lists them: {n} repaired', s)
rows = ['| bug | property | needs | what it breaks |', '|---|---|---|---|']
for d in sorted((VERIF / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace('\n', ' '))
s = re.sub(r'<!-- bugs -->.*<!-- end -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
p.write_text(s)
