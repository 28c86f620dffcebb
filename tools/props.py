#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a, technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'props_core.py')).read())
for extra in ('props_lib.py', 'props_lang.py', 'props_sys.py'):
    path = os.path.join(HERE, 'tools', extra)
    if os.path.exists(path):
        exec(open(path).read())

checks = json.load(open(os.path.join(HERE, 'checks.json')))['checks']
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
na_ids = {n['property'] for n in NA}
missing = [i for i in ids if i not in checks and i not in na_ids]
assert not missing, missing
assert not [c for c in checks if c not in ids], [c for c in checks if c not in ids]
man = {
    'version': 1,
    'setup_cmd': 'python3 run.py build',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    } for p in P if p['id'] in checks],
    'not_applicable': NA,
    'notes': 'Every check is a property-based / fuzzing search; see DESIGN.md. Known and fixed defects: known_findings.json.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
