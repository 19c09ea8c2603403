#!/usr/bin/env python3
"""Write MANIFEST.json from the rule modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C32': 'Transitivity of the tolerant float comparison depends on floating point rounding for every triple of runtime values '
           '(and ApproxEq is not transitive near the tolerance); no static argument in reach bounds it.',
    'C33': 'Correct rounding is a numeric property of std\'s and nom\'s decimal conversion for every literal; the source only calls it. '
           'C15/C22 decide that the complete literal reaches that conversion.',
    'C34': 'A quantitative bound on time and memory needs a cost model of nom, hashing and allocation over runtime lengths; C02 '
           'decides the structural part (termination, no exponential re-parsing).',
}
PENDING = 'check not built yet'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
        continue
    f = os.path.join(V, 'rules', p.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p, 'reason': PENDING})
        continue
    m = importlib.import_module('rules.' + p.lower())
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p,
                   'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'other'), 'level_note': m.LEVEL_NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "from vlib import facts; facts.load()"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read /repo unmodified.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
