"""Writes MANIFEST.json from properties.jsonl and the contracts present."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read())
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import check
TECH = 'contract-based deductive verification: verification conditions generated from the Python source of /repo on every run, discharged by z3 and cvc5'
ASSUME = 'Floats are treated as reals, termination is not proved, the translation engine/ is trusted (validated by evaluating the same contracts on the real code).'
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    cons = check.contracts_for(i)
    names = lambda f: sorted(set(k for m, k, v, var in cons if f(v)))
    proved, bounded = names(lambda v: not v.bounded), names(lambda v: v.bounded)
    if i in NA or not cons:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')}); continue
    if not bounded: note = 'Every obligation of %d contracts (%s) is discharged for all inputs satisfying the stated preconditions. ' % (len(proved), ', '.join(proved)) + ASSUME
    elif proved: note = 'Discharged for all inputs: %s. Bounded only (the same contract evaluated on seeded random calls of the real code, never counted as proved): %s. ' % (', '.join(proved), ', '.join(bounded)) + ASSUME
    else: note = 'Bounded only: the contracts %s are evaluated on seeded random calls of the real code; their functions are not within reach of the verifier yet, nothing is proved.' % ', '.join(bounded)
    if i in LEVEL: note += ' ' + LEVEL[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt -B check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt -B check.py %s' % i,
                   'technique': TECH if not bounded else TECH + '; bounded run-time evaluation of the contracts listed as bounded' if proved else 'contracts on the real code, bounded run-time evaluation (labelled bounded, not proved)',
                   'level': 'proof' if not bounded else 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -B -c "import z3" && jython -B -c "print(1)"', 'checks': checks, 'not_applicable': na,
     'notes': 'check.py <id> verifies the contracts of contracts/*.py that name the property. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', [c['property'] for c in checks])
