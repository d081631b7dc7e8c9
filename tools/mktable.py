#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development only; no check runs this).
import json, os, glob
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = d + '/DESIGN.md'
s = open(p).read()
mark = '## Planted bugs\n'
s = s[:s.index(mark)] if mark in s else s.rstrip('\n') + '\n\n'
rows = []
for m in sorted(glob.glob(d + '/seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/'), j.get('caught', 'yes')))
s += mark + '\nEach applies to HEAD, builds, passes the stable tests and fails its own demonstration. The quick check of its property catches each one marked "yes".\n\n| plant | property | needs | breaks | caught |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
