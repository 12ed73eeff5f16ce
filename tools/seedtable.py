#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# seeds that the check missed when they were planted
missed = {
    'c12-context-plural-order': 'MO entries now also have ids with a separator of the other kind',
    'c15-context-collision': 'keys and contexts now come from one small alphabet with underscores',
    'c24-merge-extracted-last': 'repeated comment lines into empty stored comments',
    'c01-context-shadow': 'same id with and without context, languages with three and more forms',
    'c19-directory-memo': 'part "history": one resolver, several loaders, files that come and go',
}
rows = ['| seeded bug | caught by | needs | first missed, then |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {missed.get(i, '')} |")
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
if a not in s:
    s += '\n## Planted bugs and the checks that catch them\n\n' + a + b + '\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
print(len(rows) - 2)
