"""development tool (no check runs it): note for which sources all obligations of a property were discharged,
so that a solver running out of time on exactly these sources is not taken for a violation"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + '/podver/proved.json'
d = json.load(open(f)) if os.path.exists(f) else {}
for p in sorted(glob.glob(V + '/evidence/*.json')):
    e = json.load(open(p)); c = e['coverage']
    if c.get('sources_key') and e['violations'] == 0 or c.get('sources_key') and not c['undecided']:
        d[e['property']] = c['sources_key']
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
print(d)
