#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md between its two markers (from seeded/*/meta.json)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    f = sorted({l[6:].strip() for l in open(os.path.dirname(m) + '/patch.diff') if l.startswith('+++ b/')})
    rows.append('| %s | `%s` | %s | %s | %s |' % (i, ', '.join(os.path.basename(x) for x in f), j['needs'], j['what_it_breaks'], j.get('caught_by', j['property'])))
t = '| bug | file | needs | breaks | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
d = open(root + '/DESIGN.md').read()
a, b = '<!-- seeded table -->\n', '<!-- end of seeded table -->'
if a in d:
    d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
else:
    d += '\n## 4. Planted bugs and the checks that catch them\n\n' + a + t + b + '\n'
open(root + '/DESIGN.md', 'w').write(d)
