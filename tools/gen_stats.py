"""design_stats.json from the evidence of the last runs (authoring tool)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = {}
for f in sorted(glob.glob(H + '/evidence/C*.json')):
  e = json.load(open(f)); c = e['coverage']
  o[e['property']] = dict(obligations=c['obligations'], functions=c['functions_under_contract'], paths=c['paths'], solver_s=round(c['solver_s']), wall_s=round(e['wall_s']), bounded=sum(b['obligations'] for b in (c.get('bounded_symbolic') or {}).values()), assumptions=e['assumptions'])
json.dump(o, open(H + '/tools/design_stats.json', 'w'), indent=0)
