#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| Id | Property | Breaks | Needs | Caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    f = '%s/seeded/%s/meta.json' % (V, d)
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                                    m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
