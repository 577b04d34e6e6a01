#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/planted.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = json.load(open(f'{ROOT}/tools/planted.json'))
rows = ['| bug | property | caught by | what it breaks | first missed |', '|---|---|---|---|---|']
for i in sorted(os.listdir(f'{ROOT}/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
    e = extra.get(i, {})
    by = e.get('by', 'own')
    if e.get('also'):
        by += ', ' + e['also']
    rows.append(f"| {i} | {m['property']} | {by} | {m['what_it_breaks']} | {e.get('missed', '')} |")
s = open(f'{ROOT}/DESIGN.md').read()
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->', s, flags=re.S)
open(f'{ROOT}/DESIGN.md', 'w').write(s)
print(len(rows) - 2, 'planted bugs')
