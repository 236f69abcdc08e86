"""writes MANIFEST.json from the table below"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = 'contract-based deductive verification (verification conditions generated from the current source, discharged by z3/cvc5 and term rules); failing inputs from replay on the real code'
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
NA = {
 'C24': 'liveness: termination of the dewpoint iteration is not provable by a ranking function (each step is a data-dependent fixed-point iteration whose contraction needs bounds on the composed exponentials no installed prover closes; no non-terminating input was found numerically); partial correctness of the loop is C10',
}
checks = []
for p, v in sorted(NOTES.items()):
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                   'technique': v.get('technique', PROOF), 'level': v.get('level', 'proof'), 'level_note': v['note']})
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
na = [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in NOTES]
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'checks read /repo through METSIM_REPO (default /repo); no hooks in /repo'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
