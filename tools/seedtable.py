#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'
rows = ['', '| bug | property | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(V + 'seeded/' + d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|')))
s = open(V + 'DESIGN.md').read()
s = re.sub(r'(<!-- seeded[^>]*-->\n).*?(\n<!-- end -->)', lambda x: x.group(1) + '\n'.join(rows) + x.group(2), s, flags=re.S)
open(V + 'DESIGN.md', 'w').write(s)
