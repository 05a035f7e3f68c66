#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the statements below and in tools/statements_*.py (P: list of dicts)."""
import json, os, re, sys, glob, importlib.util
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
sys.path[:0] = [R + '/va', R + '/props', H]
ABS = 'path-sensitive abstract interpretation (intervals and value sets) of the compiler\'s MIR over a partition of the inputs'
P, NA = [], []
for f in sorted(glob.glob(H + '/statements_*.py')):
    sp = importlib.util.spec_from_file_location('s', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    P += m.P
    NA += getattr(m, 'NA', [])
import registry


def three(t):
    """at most three sentences"""
    q = re.split(r"(?<=[\w)'\"])\. (?=[A-Z])", t.rstrip('.'))
    if len(q) <= 3:
        return t
    low = lambda x: x[0].lower() + x[1:] if x[1:2].islower() or x[1:2] == ' ' else x
    n = -(-len(q) // 3)
    return '. '.join('; '.join(low(x) if i else x for i, x in enumerate(q[j:j + n])) for j in range(0, len(q), n)) + '.'


ids = [p['id'] for p in P]
assert len(ids) == len(set(ids)), ids
na = {n['property'] for n in NA}
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': three(p['statement']), 'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(d['title']) <= 80, d['title']
        assert all(os.path.exists('/repo/' + x) for x in p['files']), p['files']
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if p['id'] in na:
        continue
    assert p['id'] in registry.CHECKS, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'], 'technique': p.get('technique', ABS), 'level': 'other', 'level_note': p.get('note', 'decided from MIR for every input in each listed cell; holds modulo the library models in va/models.py; see DESIGN.md')})
extra = set(registry.CHECKS) - set(ids)
assert not extra, extra
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks,', len(NA), 'not applicable')
