"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
t = '| property | planted bug | needs |\n|---|---|---|\n'
for p in sorted(rows):
    for i, n in rows[p]:
        t += f'| {p} | {i} | {n} |\n'
s = open(f'{H}/DESIGN.md').read()
open(f'{H}/DESIGN.md', 'w').write(s[:s.index('<!-- seeds -->')] + '<!-- seeds -->\n' + t)
