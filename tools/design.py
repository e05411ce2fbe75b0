#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md (planted bugs, number of fixes)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = '| planted bug | needs | caught by |\n|---|---|---|\n'
i = s.index(head)
j = s.find('\n\n', i)
rows = ''
for k in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', k, 'meta.json')))
    rows += '| %s | %s | %s |\n' % (k, m['needs'],
                                    m.get('caught_by', m['property']))
s = s[:i] + head + rows + (s[j + 1:] if j >= 0 else '')
n = len(re.findall(r'^fixed: ', open(os.path.join(
    V, 'known_findings.txt')).read(), re.M))
s = re.sub(r'^\d+ defects were found', '%d defects were found' % n, s,
           flags=re.M)
open(p, 'w').write(s)
