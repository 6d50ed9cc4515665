"""Writes MANIFEST.json from the table below (run from /verif)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
# id -> level_note
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
TECH = ('contract-based deductive verification of the real code: the unmodified functions of /repo are executed on symbolic '
        'arguments under pre/postconditions, loop invariants and assumed library contracts; every path generates obligations '
        'discharged by z3 for all sizes and values (cvc5 cross-check in thorough); the same contracts are evaluated on the real '
        'code to replay a failed obligation and as a labelled bounded stand-in')
checks, na = [], []
for p in props:
  i = p['id']
  if i in CLAIMED:
    c = CLAIMED[i]
    checks.append(dict(property=i, quick_cmd=f'bash run.sh {i} quick', thorough_cmd=f'bash run.sh {i} thorough',
                       technique=TECH, level=c.get('level', 'proof'), level_note=c['note']))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
