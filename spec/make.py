"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, state=(), na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))),
              level_note, technique, na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, note, tech, n in P:
    if n:
        na.append(dict(property=p['id'], reason=n))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
                       technique=tech, level='other', level_note=note))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Static analysis of the compiler\'s MIR; see DESIGN.md. No hooks: /repo is read as it is.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
