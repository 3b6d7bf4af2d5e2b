"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(ROOT, 'tools', 'seed_notes.json')))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    m, n = json.load(open(d + '/meta.json')), os.path.basename(d)
    rows.append('| %s | %s | %s | %s%s |' % (n, m['property'], m['needs'].replace('|', '\\|'), m['property'],
                                            ' (%s)' % MISSED[n] if n in MISSED else ''))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
open(p, 'w').write(re.sub(r'(?s)<!-- seeds -->.*<!-- /seeds -->',
                          lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s))
