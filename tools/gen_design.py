"""DESIGN.md = design_head.md + fixes + per-property sections (from the contracts and the last evidence) + seeds."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(H + '/tools/design_head.md').read().rstrip(), '']
kf = json.load(open(H + '/known_findings.json'))
for f in kf['fixed']: out.append('* ' + f.replace('fixed: ', ''))
out += ['', open(H + '/tools/design_notes.md').read().rstrip(), ''] if os.path.exists(H + '/tools/design_notes.md') else []
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
claims = json.load(open(H + '/tools/claims.json'))
har = {}
for f in sorted(glob.glob(H + '/contracts/*.py')):
  src = open(f).read()
  for n in ast.parse(src).body:
    if not isinstance(n, ast.FunctionDef): continue
    for d in n.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract':
        pid = d.args[0].value
        b = [k.value for k in d.keywords if k.arg == 'bounded']
        bound = ast.unparse(b[0]) if b else None
        har.setdefault(pid, []).append((os.path.basename(f), n.name, (ast.get_docstring(n) or '').split('\n')[0], bound))
rt = {}
for f in sorted(glob.glob(H + '/rt/*_rt.py')):
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'check':
          ids = ast.literal_eval(d.args[0])
          for i in ([ids] if isinstance(ids, str) else ids): rt.setdefault(i, []).append(os.path.basename(f) + ':' + n.name)
out.append('## Per property')
for p in props:
  i = p['id']
  if i not in claims: continue
  out += ['', f"### {i} — {p['title']}", '', 'How it is decided: ' + claims[i]['note'] + '.', '']
  for f, n, doc, b in har.get(i, []): out.append(f"* `{f}:{n}`" + (f' — {doc}' if doc else '') + (f' **bounded: {b}**' if b else ''))
  ev = H + f'/evidence/{i}.json'
  st = STATS = None
  out.append(f"* replay/bounded stage: {', '.join('`%s`' % x for x in rt.get(i, []))}")
  s = json.load(open(H + '/tools/design_stats.json')).get(i) if os.path.exists(H + '/tools/design_stats.json') else None
  if s:
    out.append(f"* last recorded run: {s['obligations']} obligations over {len(s['functions'])} functions, {s['paths']} paths, {s['solver_s']} s solver, {s['wall_s']} s in all; bounded symbolic obligations: {s['bounded']}")
    out.append('* functions under contract: ' + ', '.join('`%s`' % x.replace('vmoe/', '') for x in s['functions'] if '<' not in x))
    a = [x.replace('assumed library contract: ', '') for x in s['assumptions'] if x.startswith('assumed library')]
    o = [x for x in s['assumptions'] if not x.startswith('assumed library')]
    if a: out.append('* assumed library contracts: ' + ', '.join(a))
    for x in o: out.append('* assumption: ' + x)
if os.path.exists(H + '/tools/design_seeds.md'): out += ['', open(H + '/tools/design_seeds.md').read().rstrip()]
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
