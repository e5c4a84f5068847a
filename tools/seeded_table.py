#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md section 5 from seeded/*/meta.json (development only)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| `%s` | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
table = '| planted bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(\n<!-- end -->)', lambda m: m.group(1) + table + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
