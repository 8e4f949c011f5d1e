#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-ish python tables."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))
exec(open(os.path.join(root, 'tools', 'props.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                   'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
impl = set()
for fn in os.listdir(os.path.join(root, 'mc')):
    if fn.endswith('.go'):
        impl |= set(re.findall(r'ID:\s+"(C\d+)"', open(os.path.join(root, 'mc', fn)).read()))
checks = [{'property': p['id'], 'quick_cmd': f"./run.sh {p['id']} quick", 'thorough_cmd': f"./run.sh {p['id']} thorough",
           'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] in impl]
na = [{'property': p['id'], 'reason': 'no check has been built yet'} for p in P if p['id'] not in impl]
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks are needed in /repo: every check drives the public API. fix: commits in /repo are listed in known_findings.txt.'},
    open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'unclaimed')
