#!/usr/bin/env python3
"""tools/seedtable.py: rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(D + '/seeded')):
    m = json.load(open(f'{D}/seeded/{s}/meta.json'))
    rows.append((m['property'], f"| {m['property']} | {s} | {m['what_it_breaks']} | {m['needs']} |"))
t = '<!-- seeds -->\n| Property | Bug | Breaks | Needs |\n|---|---|---|---|\n' + '\n'.join(r for _, r in sorted(rows)) + '\n<!-- /seeds -->'
p = D + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->|^SEEDS$', lambda _: t, s, flags=re.S | re.M)
open(p, 'w').write(s)
