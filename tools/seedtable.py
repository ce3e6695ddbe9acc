#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| | property | what breaks | needs |', '|-|-|-|-|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDS\n' in s: s = s.replace('SEEDS\n', t + '\n')
else: s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
