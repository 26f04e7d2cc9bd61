#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and props/*.py"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']; f = f'{V}/props/{i}.py'
    if os.path.exists(f) and i not in NA:
        d = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'NOTE', 'TECHNIQUE'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} --tier quick', 'thorough_cmd': f'./check.sh {i} --tier thorough',
                       'technique': d.get('TECHNIQUE', 'contract-based deductive verification of the LLVM IR compiled from the working tree (own VC generator, z3/cvc5), plus bounded run-time contract checking for failing inputs'),
                       'level': d.get('LEVEL', 'proof'), 'level_note': d.get('NOTE', 'see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
