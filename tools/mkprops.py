#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
checks = []
na = []
for p in P:
    if p['na'] or not os.path.exists(os.path.join(V, 'rules', p['id'].lower() + '.py')):
        na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
            thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         notes='Static analysis only: clang 18 libTooling front end (frontend/astfacts.cpp) over the configured build, rules in rules/. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
