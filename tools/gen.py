#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and meta/*.json from the property descriptions in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE, HOOKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS + [n['prop'] for n in NOT_APPLICABLE if 'prop' in n]:
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if 'observe' in p: o['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(o) + '\n')
checks = []
os.makedirs(root + '/meta', exist_ok=True)
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': p.get('technique', 'deterministic simulation: ' + p['tech']), 'level': 'exploration', 'level_note': p['note']})
    frag = {'rule': p['rule'], 'real_components': p['real'], 'stubbed_components': p['stub']}
    s = json.dumps(frag, indent=2)[1:-1].strip('\n')
    open(root + '/meta/%s.json' % p['id'], 'w').write(s)
json.dump({'version': 1, 'setup_cmd': 'for g in mpi io app setup grid lit; do make -j8 GROUP=$g >/dev/null 2>&1; done; true', **({'hooks': HOOKS} if HOOKS else {}), 'checks': checks,
           'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NOT_APPLICABLE]}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties')
