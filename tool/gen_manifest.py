#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []     # claimed
NA = []        # (property, reason)


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='other', na=None, state=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: p['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    PROPS.append((p, technique, note, level, na))


exec(open(os.path.join(V, 'tool', 'properties.py')).read())

ids = [p[0]['id'] for p in PROPS]
assert len(ids) == len(set(ids)), 'duplicate id'
for p in PROPS:
    assert len(p[0]['title']) <= 80, p[0]['id'] + ' title'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS, key=lambda x: x[0]['id']): f.write(json.dumps(p[0]) + '\n')
man = dict(version=1, setup_cmd='python3 -B lib/setup.py',
           checks=[dict(property=p['id'], quick_cmd='bash check.sh %s' % p['id'], thorough_cmd='bash check.sh %s --thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'], technique=t, level=lv, level_note=n)
                   for p, t, n, lv, na in sorted(PROPS, key=lambda x: x[0]['id']) if not na],
           not_applicable=[dict(property=p['id'], reason=na) for p, t, n, lv, na in sorted(PROPS, key=lambda x: x[0]['id']) if na],
           notes='Every check extracts facts (CFGs, resolved calls, types, records) from the current /repo/src with a clang-18 libTooling program and applies its rule to them; no code of the library is run.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'not applicable')
