"""write MANIFEST.json from the table below"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = 'contracts on the real tensap functions; verification conditions by symbolic execution of the functions themselves (symbolic sizes and entries), discharged by einsum normal form + z3; bounded stand-in for the rest'
CLAIMED = {
 'C01': ('proof', SYM, 'all shapes and entries, orders 1..5 and the enumerated mode lists; functions listed under functions_bounded_or_partly in the evidence are bounded only'),
}
try:
    exec(open(os.path.join(R, 'tools', 'claimed.py')).read())
except FileNotFoundError:
    pass
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'chmod +x check && /opt/venv/bin/python -c "import numpy, scipy" && mkdir -p evidence replays',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMED:
        l, t, n = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'technique': t, 'level': l, 'level_note': n, 'evidence_file': 'evidence/%s.json' % i})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
