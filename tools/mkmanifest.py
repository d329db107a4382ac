"""MANIFEST.json from the properties and the registered cases."""
import json, sys
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from pv.props import registry
allc = registry.all_cases()
NA = {}
TECH = {'proof': 'contracts on the real source, obligations discharged by z3/cvc5', 'exploration': 'contract evaluated on the real code over bounded inputs (bounded stand-in)'}
NOTE = 'Postconditions over the real /repo source, executed symbolically on every run (no copy of the code); obligations discharged by z3, cvc5 as fallback, for all inputs of the case; each path is also replayed on the untouched package. Trusted: the pv engine, its numpy/scipy models, real arithmetic for floats, unbounded integers for int64.'
NOTES = getattr(registry, 'NOTES', {})
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not allc.get(i): na.append({'property': i, 'reason': 'contracts not written yet'}); continue
    meta = registry.META.get(i, {})
    lev = meta.get('level', 'proof')
    checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                   'technique': meta.get('technique', TECH[lev]), 'level': lev, 'level_note': NOTE + ' ' + meta.get('note', '')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import pv.runner"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks load /repo\'s source as it is. Fix commits are listed in known_findings.json.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
