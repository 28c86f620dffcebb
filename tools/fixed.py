#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits (subject -> property below)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip('\n').split('\t') for l in open(os.path.join(HERE, 'tools', 'fixed_map.tsv')) if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True).stdout
out, unmapped = [], []
for l in log.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix:'):
        continue
    for frag, prop in MAP:
        if frag in s:
            out.append('fixed: property=%s %s %s' % (prop, h, s[5:]))
            break
    else:
        unmapped.append(s)
p = os.path.join(HERE, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = out
with open(p, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
print(len(out), 'fixed;', 'UNMAPPED:' if unmapped else '', *unmapped, sep='\n ' if unmapped else ' ')
