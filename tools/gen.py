#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
import props, registry
out = []
for p in props.PROPS:
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}})
open(os.path.join(HERE, '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
checks, na = [], []
for p in props.PROPS:
    if p['id'] in registry.RULES:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                       'thorough_cmd': 'python3 check.py ' + p['id'] + ' --tier thorough',
                       'technique': p.get('technique', 'static whole-program abstract interpretation (value/typestate dataflow) over the compiler\'s resolved MIR'),
                       'level': 'other', 'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Facts are extracted from the current tree by driver/ (a rustc driver) and analysed by sa/. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
