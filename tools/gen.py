#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanism,
#      claimed technique or None, level note / reason)
T = 'task_models/task.py'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mech=mech, tech=tech, note=note))


BASE = ('Exhaustive TLC exploration of the specification on small constants, plus '
        'TLC validation of traces recorded from the real code on generated inputs. '
        'Trusts the projection of the harness, TLC and the sampled inputs.')

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']

m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s' % p['id'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
        'technique': p['tech'],
        'level': 'model_checking',
        'level_note': p['note'] or BASE,
    } for p in PROPS if p['tech']],
    'not_applicable': [{'property': p['id'], 'reason': p['note'] or
                        'check not built yet'} for p in PROPS if not p['tech']],
    'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the code by '
             'traces recorded in harness/. No hooks are needed in /repo: everything is '
             'observed through the API.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(m['checks']), 'claimed')
