"""Writes the table of planted bugs into DESIGN.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
h = os.path.join(here, 'seeded')
notes = json.load(open(os.path.join(here, 'seeded_notes.json')))
rows = ['| bug | property | needs | caught by | first missed |', '|---|---|---|---|---|']
for b in sorted(os.listdir(h)):
    m = os.path.join(h, b, 'meta.json')
    if os.path.exists(m):
        d = json.load(open(m))
        n = notes.get(b, {})
        rows.append('| %s | %s | %s | %s | %s |' % (b, d['property'], d['needs'], n.get('caught', d['property']), n.get('missed', '')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
