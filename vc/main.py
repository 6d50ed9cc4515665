"""Deductive stage for one property: python -m vc.main <PID> <out.json> <tier>."""
import importlib
import json
import os
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

MODULES = {}


def modules_for(pid):
  """Contract modules that register harnesses for this property."""
  here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
  out = []
  for f in sorted(os.listdir(here)):
    if f.endswith('.py') and f != '__init__.py':
      with open(os.path.join(here, f)) as fh:
        src = fh.read()
      if f"'{pid}'" in src:
        out.append('contracts.' + f[:-3])
  return out


def main():
  pid, out, tier = sys.argv[1:4]
  t0 = time.time()
  from vc import engine, core
  res = dict(property=pid, harnesses=[], errors=[])
  for m in modules_for(pid):
    importlib.import_module(m)
  budget = 240.0 if tier == 'quick' else 1500.0
  for h in engine.HARNESSES.get(pid, []):
    if h.opts.get('thorough') and tier == 'quick':
      continue
    left = max(budget - (time.time() - t0), 5.0)
    r = engine.run_harness(h, budget=min(left, h.opts.get('budget', 150.0) * (1 if tier == 'quick' else 6)),
                           timeout=20.0 if tier == 'quick' else 90.0, want_smt2=(tier == 'thorough'))
    if tier == 'thorough':
      cross_check(r)
    res['harnesses'].append(r)
  res['solver_s'] = round(core.STATS['solver_s'], 2)
  res['queries'] = core.STATS['queries']
  res['wall_s'] = round(time.time() - t0, 2)
  with open(out, 'w') as f:
    json.dump(res, f, indent=1, default=str)


def cross_check(r):
  """Second back end (thorough): cvc5 on the same query."""
  import subprocess, tempfile
  for o in r['obligations']:
    smt = o.pop('smt2', None)
    if not smt: continue
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
      f.write('(set-logic ALL)\n' + smt)
    try:
      p = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True, timeout=40)
      o['cvc5'] = p.stdout.strip().splitlines()[0] if p.stdout.strip() else 'error'
    except Exception:
      o['cvc5'] = 'timeout'
    finally:
      os.unlink(f.name)


if __name__ == '__main__':
  main()
