#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""b04 b05 b06 b08 b14 c01 c02 c03 c13 c17 c23 c26 c27 c29
d01 d03 d07 d14 d17 d20 d27 d28 d30 d38 d41""".split()) | set(open(f'{V}/tools/missed.txt').read().split())
rows = []
for p in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    i = p.split('/')[-2]
    m = json.load(open(p))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'after strengthening' if i in MISSED else 'yes'} |")
d = open(f'{V}/DESIGN.md').read()
a, z = '<!-- planted -->\n', '<!-- /planted -->'
i, j = d.index(a) + len(a), d.index(z)
d = d[:i] + '\n| bug | property | change | needs | caught by that property\'s quick check |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n\n' + d[j:]
open(f'{V}/DESIGN.md', 'w').write(d)
