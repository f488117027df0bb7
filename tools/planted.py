"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json (ids given as arguments are marked as missed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head = text[:text.index('## Planted changes')]
rows = []
for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', name, 'meta.json')))
    rows.append(f"| {name} | {meta['property']} | {meta['needs']} | {meta['what_it_breaks']} | {'no' if name in sys.argv[1:] else 'yes'} |")
with open(path, 'w') as f:
    f.write(head + '## Planted changes\n\n| planted change | property | needs | breaks | caught by its check |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
print(len(rows))
