#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import P, V
ids = [i for i in sorted(P) if os.path.exists(f'{V}/ficusmon/props/{i.lower()}.py')]
with open(f'{V}/properties.jsonl', 'w') as f:
    for i in ids:
        d = P[i]
        assert len(d['title']) <= 80, (i, len(d['title']))
        assert d['statement'].count('. ') <= 2, i
        f.write(json.dumps({'id': i, 'title': d['title'], 'statement': d['statement'],
                            'quantifier': {'over': d['over'], 'text': d['quant']}, 'why_tests_cant': d['why'],
                            'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']],
                                        'observe_at': ['public functions and pipeline parts of the listed files'], 'hook_needed': None}},
                           ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --selfcheck',
     'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                 'evidence_file': f'evidence/{i}.json', 'technique': P[i]['tech'], 'level': 'exploration',
                 'level_note': 'Held on every execution observed (counts in the evidence file); nothing is claimed about executions not run. ' + P[i]['note'] + '.'} for i in ids],
     'not_applicable': [],
     'notes': 'No hooks in /repo: all monitors sit at library boundaries (sys.monitoring, matplotlib, graphviz, ipycanvas, an in-process gRPC server). '
              'Fixed defects are listed in known_findings.json.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(ids), 'properties')
