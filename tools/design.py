#!/usr/bin/env python3
"""Development tool: DESIGN.md = tools/design.md with the generated tables filled in."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + '/known_findings.json'))
fixed = {}
for f in k['fixed']:
    prop, rest = f[len('fixed: property='):].split(' ', 1)
    fixed.setdefault(prop, []).append(rest)
t = open(V + '/tools/design.md').read()
t = t.replace('@@FIXED@@', 'Repaired in %d `fix:` commits in /repo (`known_findings.json` lists them in full):\n\n' % len(k['fixed'])
              + '\n'.join('* **%s** (%d): %s' % (p, len(v), '; '.join('`%s` %s' % tuple(x.split(' ', 1)) for x in v)) for p, v in sorted(fixed.items())))
t = t.replace('@@KNOWN@@', '\n'.join('* %s (%s): %s' % (x['id'], x['property'], x['what']) for x in k['known']))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs']))
t = t.replace('@@SEEDED@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
