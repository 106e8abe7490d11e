#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CLAIMED, NA = [], {}, {}


def prop(id, title, statement, over, text, why, files, mechanism, level_note=None, state=None, na=None, level='proof', technique=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mechanism]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    PROPS.append(d)
    if na:
        NA[id] = na
    else:
        CLAIMED[id] = (level, level_note or '', technique or 'contract-based deductive verification (VCs from the current source, SMT)')


exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"',
       'hooks': {'guard': 'none', 'enable': 'no hooks: the contracts live in /verif/specs and bind to the functions in /repo by name', 'source_commits': []},
       'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
for k, (level, note, tech) in CLAIMED.items():
    man['checks'].append({'property': k, 'quick_cmd': 'python3-vt check.py %s' % k, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % k,
                          'technique': tech, 'level': level, 'level_note': note})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(man['checks']), 'claimed')
