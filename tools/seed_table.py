#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m.get('caught_by', m['property'])))
rows.sort()
t = '| property | change | what it breaks | caught by |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
s = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
if '@TABLE@' in s: s = s.replace('@TABLE@', a + b)
i, j = s.index(a) + len(a), s.index(b)
open(V + '/DESIGN.md', 'w').write(s[:i] + t + s[j:])
