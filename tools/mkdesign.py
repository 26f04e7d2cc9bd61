#!/usr/bin/env python3
"""sections 2, 3 and the table of section 5 of DESIGN.md, from properties.jsonl, props/*.py, tools/not_applicable.json and seeded/*/meta.json"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
def vals(i):
    d = {}
    for n in ast.parse(open(f'{V}/props/{i}.py').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('NOTE', 'ASSUMPTIONS', 'HARNESS'):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                d[n.targets[0].id] = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant)]
                names = [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)]
                if names: d[n.targets[0].id] = d[n.targets[0].id] + ['the common assumptions on objects and memory (props/common.py: ' + ', '.join(names) + ')']
    return d
s2, s3 = [], []
for p in P:
    i = p['id']
    if i in NA:
        s3.append(f"* **{i} {p['title']}**: {NA[i]}.")
        continue
    d = vals(i)
    n = d.get('NOTE', '')
    s2.append(f"**{i} {p['title']}.** {n[:1].upper() + n[1:]}\nAssumes: " + '; '.join(d.get('ASSUMPTIONS', ['nothing beyond the trusted base'])) + '.\n')
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught_by', 'check of ' + m['property'])} |")
t = open(V + '/DESIGN.md').read()
for k, x in (('props', '\n'.join(s2)), ('na', '\n'.join(s3)), ('seeds', '\n'.join(rows))):
    t = re.sub(f'(<!-- {k} -->\n).*?(\n<!-- end {k} -->)', lambda m: m[1] + x + m[2], t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
