#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing; development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COL = 'modules/collections/src/'
PROPS = []
CHECKS = {}
NA = {}


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                  'anchors': dict({'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, **({'state': state} if state else {}), **({'observe_at': observe} if observe else {}))})
    if na:
        NA[id] = na
    else:
        CHECKS[id] = (technique, note)


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 checks/setup.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 checks/run.py %s quick' % i, 'thorough_cmd': 'python3 checks/run.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                 'technique': t, 'level': 'other', 'level_note': n} for i, (t, n) in CHECKS.items()],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()],
     'notes': 'Every check compiles /repo\'s current sources to LLVM IR (clang, no execution) and interprets the IR over abstract domains. No hooks are needed in /repo. See DESIGN.md.'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(CHECKS), 'claimed')
