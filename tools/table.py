#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs: tools/table.py -->\n'
rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    esc = lambda s: s.replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), esc(m['what_it_breaks']), esc(m['needs']), m['property']))
p = V + '/DESIGN.md'
s = open(p).read().replace('@@TABLE@@', MARK)
s = s[:s.index(MARK)] + MARK + '\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
