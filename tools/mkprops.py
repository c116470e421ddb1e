#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, plan
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(d['title']) <= 80, d['title']
        d['quantifier'] = {'over': p['over'], 'text': p['quant']}
        d['why_tests_cant'] = p['tests']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in props.PROPS:
    i = p['id']
    if i in plan.PLANS:
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': plan.PLANS[i].get('technique', 'bounded symbolic execution of the compiled Rust (Kani/CBMC, SAT), native replay of counterexamples'),
                       'level': plan.LEVEL, 'level_note': 'Holds for every input within the bounds, nothing is claimed outside: ' + plan.PLANS[i]['bounds'] +
                       ' Trusts the bitvec model, the listed stubs, Kani, CBMC and CaDiCaL.'})
    else:
        na.append({'property': i, 'reason': p['na']})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: all harnesses use public APIs or include source files by path. Level "other": bounded solver verdicts, see DESIGN.md.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
