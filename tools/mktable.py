#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = ['| planted | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[1], m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
t = open('DESIGN.md').read().split('<!-- table -->')[0]
open('DESIGN.md', 'w').write(t + '<!-- table -->\n' + '\n'.join(rows) + '\n')
