"""Notes how long the quick checks took in their last run"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
costs = {}
f = os.path.join(ROOT, 'tools', 'costs.json')
if os.path.exists(f):
    costs = json.load(open(f))
for n in sorted(os.listdir(os.path.join(ROOT, 'evidence'))):
    d = json.load(open(os.path.join(ROOT, 'evidence', n)))
    if d['tier'] == 'quick':
        costs[d['property']] = int(round(d['wall_s']))
json.dump(costs, open(f, 'w'), indent=0, sort_keys=True)
