#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
head = '| planted change | property | needs |\n|---|---|---|\n'
i = s.index(head)
rows = ''
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows += '| %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').strip())
tail = s[i + len(head):].split('\n\n', 1)
open(p, 'w').write(s[:i] + head + rows + ('\n' + tail[1] if len(tail) > 1 else ''))
