#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, re, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (d.split('/')[1], m['property'], m['needs'].strip()))
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seedtable -->.*?<!-- /seedtable -->', lambda _: '<!-- seedtable -->\n' + '\n'.join(rows) + '\n<!-- /seedtable -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
