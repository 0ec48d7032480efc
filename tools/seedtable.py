"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
lines = open(root + '/DESIGN.md').read().split('\n')
i = lines.index('| bug | check | needs |') + 2
j = i
while lines[j].startswith('|'):
    j += 1
lines[i:j] = rows
open(root + '/DESIGN.md', 'w').write('\n'.join(lines))
