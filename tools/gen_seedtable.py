#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    e = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), e(m['what_it_breaks']), e(m['needs']), e(m.get('caught_by', m['property']))))
rows.sort()
t = '<!-- seeds -->\n| Property | Change | What it breaks | Needs | Caught by |\n|---|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s | %s (quick) |\n' % r for r in rows) + '<!-- /seeds -->'
d = here + '/DESIGN.md'
s = open(d).read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(d, 'w').write(s)
