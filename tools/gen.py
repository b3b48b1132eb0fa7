#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', na=None,
         state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({'state': state} if state else {}), **({'observe_at': observe} if observe else {}))))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd='python3 check.py ' + id, thorough_cmd='python3 check.py ' + id,
                           technique=technique, level=level, level_note=note))


CHECKS = []
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())
for c in CHECKS:
    assert len([p for p in P if p['id'] == c['property']]) == 1
for p in P:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=CHECKS, not_applicable=NA), f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')
