#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (run by hand after an edit; not part of any check)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough python3 check.py {p['id']}",
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
