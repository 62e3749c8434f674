#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.json-like python tables (committed outputs)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.meta import PROPS, NA

def three(t):
    """at most three sentences"""
    q = [x for x in t.strip().split('. ') if x]
    if len(q) <= 3:
        return t
    q[-1] = q[-1].rstrip('.')
    n = len(q)
    size = [n // 3 + (1 if i < n % 3 else 0) for i in range(3)]
    out = []
    for k in size:
        out.append('; '.join(q[:k]))
        q = q[k:]
    return '. '.join(out) + '.'


with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=three(p['statement']),
                                quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
na = [dict(property=p['id'], reason=p['na']) for p in PROPS if p.get('na')]
checks = []
for p in PROPS:
    if p.get('na'):
        continue
    if not os.path.exists(V + '/checks/%s.py' % p['id'].lower()):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py ' + p['id'],
                       technique=p['technique'], level='other', level_note=p['note']))
doc = dict(version=1, setup_cmd='python3 lib/build.py tool', checks=checks, not_applicable=na,
           notes='Every check is a static analysis of the current /repo sources; see DESIGN.md. known-findings.txt lists recorded defects.')
json.dump(doc, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
