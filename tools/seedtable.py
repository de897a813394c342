#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(?s)\| change \|.*?(?=\n\nChanges that were first)', lambda _: '| change | property | what it needs |\n|---|---|---|\n' + '\n'.join(rows), s)
open(p, 'w').write(s)
