#!/usr/bin/env python3
"""Rewrite the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| {} | {} | {} | {} | {} |'.format(os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/'),
                                               d['what_it_breaks'].replace('|', '/'), d.get('caught_by', d['property'])))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded table -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
