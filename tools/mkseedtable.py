#!/usr/bin/env python3
"""mkseedtable.py: rewrites the table of planted bugs in DESIGN.md (between the two marker lines) from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    cell = lambda s: re.sub(r'\s+', ' ', s).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), cell(d['what_it_breaks']), cell(d['needs']), ', '.join(d.get('caught_by', [d['property']]))))
text = open(here + '/DESIGN.md').read()
a, b = '<!-- planted bugs -->\n', '<!-- end of planted bugs -->\n'
i, j = text.index(a) + len(a), text.index(b)
text = text[:i] + '| planted bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + text[j:]
open(here + '/DESIGN.md', 'w').write(text)
