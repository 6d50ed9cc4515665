"""Run-time contract stage: python -m rt.main <PID> <out.json> <tier> <seed>."""
import importlib
import json
import os
import sys
import time


def modules_for(pid):
  here = os.path.dirname(os.path.abspath(__file__))
  out = []
  for f in sorted(os.listdir(here)):
    if f.endswith('.py') and f not in ('__init__.py', 'base.py', 'main.py'):
      with open(os.path.join(here, f)) as fh:
        if f"'{pid}'" in fh.read():
          out.append('rt.' + f[:-3])
  return out


def main():
  pid, out, tier, seed = sys.argv[1:5]
  os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_force_host_platform_device_count=8'
  t0 = time.time()
  from rt import base
  errors = []
  for m in modules_for(pid):
    try:
      importlib.import_module(m)
    except Exception as e:
      import traceback
      errors.append(''.join(traceback.format_exception(e))[-1500:])
  run = base.run_checks(pid, int(seed), tier, 200.0 if tier == 'quick' else 900.0, float(os.environ.get('RT_FILL') or (25 if tier == 'quick' else 900)))
  res = dict(property=pid, cases=run.cases, clauses=run.clauses, distinct=len(run.distinct), samples=run.samples,
             violations=run.violations, errors=errors + run.errors, contracts=sorted(run.contracts), known=run.known, truncated=run.truncated, rounds=run.rounds,
             wall_s=round(time.time() - t0, 2))
  with open(out, 'w') as f:
    json.dump(res, f, indent=1, default=str)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main()
