"""Decides one property: check.py <PID> [quick|thorough].

Exit 0: the property held on everything explored. Exit 1 + VIOLATION line: broken.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable


def known_findings(pid):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p): return []
  with open(p) as f:
    return [k for k in json.load(f).get('known', []) if k['property'] == pid]


def run_stage(mod, args, log, timeout, env):
  return subprocess.Popen([PY, '-m', mod] + args, cwd=HERE, stdout=log, stderr=subprocess.STDOUT, env=env), timeout


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
  tmp = tempfile.mkdtemp(prefix=f'verif_{pid}_')
  env = dict(os.environ, TMPDIR=tmp, PYTHONPATH=HERE + ':' + os.environ.get('PYTHONPATH', ''))
  try:
    d_out, r_out = os.path.join(tmp, 'ded.json'), os.path.join(tmp, 'rt.json')
    d_log, r_log = open(os.path.join(tmp, 'ded.log'), 'w'), open(os.path.join(tmp, 'rt.log'), 'w')
    lim = 400 if tier == 'quick' else 3000
    procs = [run_stage('vc.main', [pid, d_out, tier], d_log, lim, env),
             run_stage('rt.main', [pid, r_out, tier, str(seed)], r_log, lim, env)]
    for p, tmo in procs:
      try:
        p.wait(timeout=max(tmo - (time.time() - t0), 1))
      except subprocess.TimeoutExpired:
        p.kill(); p.wait()
    def read(path, log):
      if os.path.exists(path):
        with open(path) as f: return json.load(f), ''
      with open(log) as f: return None, f.read()[-3000:]
    ded, dlog = read(d_out, d_log.name)
    rt, rlog = read(r_out, r_log.name)
    code = verdict(pid, tier, seed, ded, dlog, rt, rlog, t0)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(code)


def write_replay(pid, tag, obj):
  path = os.path.join(HERE, 'evidence', 'replay', f'{pid}-{tag}.json')
  with open(path, 'w') as f:
    json.dump(obj, f, indent=1, default=str)
  return path


def verdict(pid, tier, seed, ded, dlog, rt, rlog, t0):
  obs, funcs, assumptions, und, refuted = [], set(), set(), [], []
  bobs = []   # obligations of harnesses that fix a bound: never counted as proved
  if ded:
    for h in ded['harnesses']:
      funcs.update(h['functions'])
      assumptions.update(h['assumptions'])
      for o in h['obligations']:
        o = dict(o, harness=h['harness'])
        if h.get('bounded'): bobs.append(o)
        else: obs.append(o)
        if o['status'] == 'refuted': refuted.append(o)
        elif o['status'] != 'proved': und.append(f"{h['harness']}.{o['name']}: {o['status']}")
      if h['error']: und.append(f"{h['harness']}: {h['error']}")
      elif not h['obligations']: und.append(f"{h['harness']}: no obligations")
      elif h['covers'] == 0 and not any(o['status'] == 'refuted' for o in h['obligations']):
        und.append(f"{h['harness']}: precondition not reachable (vacuous)")
  else:
    und.append('deductive stage failed: ' + dlog[-1500:])
  proved = [o for o in obs if o['status'] == 'proved']
  rt_err = rt['errors'] if rt else ['run-time stage failed: ' + rlog[-1500:]]
  viol = list(rt['violations']) if rt else []
  known = known_findings(pid)
  reported = []
  for k in known:
    if rt and k['id'] in rt.get('known', []):
      print(f"KNOWN-FINDING: property={pid} {k['what']}")
  full = bool(obs) and not und and not refuted
  bsym = {}
  for h in (ded['harnesses'] if ded else []):
    if h.get('bounded'):
      bsym[h['harness']] = dict(bound=h['bounded'], obligations=len(h['obligations']),
                                held=sum(o['status'] == 'proved' for o in h['obligations']))
  n_viol = 0
  code = 0
  if viol:
    code = 1
    for i, v in enumerate(viol[:3]):
      n_viol += 1
      path = write_replay(pid, f'{i}', dict(
          property=pid, kind='contract violated on the real code', **v, seed=seed, tier=tier,
          failed_obligations=refuted[:5], replay=f'VERIF_SEED={seed} bash run.sh {pid} {tier}'))
      print(f'  contract {v["contract"]} ({v["check"]}): {v["message"][:400]}')
      print(f'VIOLATION property={pid} replay={path}')
  elif refuted:
    code = 1
    n_viol = 1
    path = write_replay(pid, 'obligation', dict(
        property=pid, kind='proof obligation refuted by the verifier; not reproduced on the real code',
        obligations=refuted[:10], seed=seed, tier=tier))
    for o in refuted[:5]:
      print(f"  obligation {o['harness']}.{o['name']} fails: {o.get('detail', '')}")
    print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
  elif not proved and not bobs and not (rt and rt['clauses']):
    code = 2
    print('UNDECIDED: ' + '; '.join(und + rt_err)[:2000])
  level = 'proof' if full else 'other'
  cov = dict(
      obligations=len(obs), discharged=len(proved),
      checker_cmd=f'bash run.sh {pid} {tier}',
      functions_under_contract=sorted(funcs), backends=['z3 5.3.2 (python API)'] + (['cvc5 (cross-check)'] if tier == 'thorough' else []),
      solver_s=ded['solver_s'] if ded else 0, solver_queries=ded['queries'] if ded else 0,
      paths=sum(h['paths'] for h in ded['harnesses']) if ded else 0,
      trusted_base=['the verifier in /verif/vc (path exploration, tensor index calculus)', 'z3', 'CPython executing the unmodified source of /repo'],
      undecided=und[:20],
      cvc5=dict((s, sum(1 for o in obs if o.get('cvc5') == s)) for s in sorted({o.get('cvc5') for o in obs if o.get('cvc5')})),
      obligation_names=sorted({f"{o['harness']}.{o['name']}" for o in obs})[:200],
      bounded_symbolic=bsym,
      bounded_stage=dict(label='bounded: contracts evaluated on the real code (replay and stand-in), not counted as proved',
                         evaluations=rt['cases'] if rt else 0, distinct=rt['distinct'] if rt else 0, clauses=rt['clauses'] if rt else 0,
                         contracts=rt['contracts'] if rt else [], samples=rt['samples'] if rt else [], errors=rt_err[:10]))
  if level == 'other':
    cov['explanation'] = (f'{len(proved)} of {len(obs)} unbounded obligations discharged, '
                          f'{sum(o["status"] == "proved" for o in bobs)} of {len(bobs)} obligations of bounded symbolic harnesses, plus the run-time contract stage; '
                          'not decided deductively on this run: ' + ('; '.join(und)[:500] or 'every harness of this property carries a bound'))
  ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=sorted(assumptions) + ['machine arithmetic treated as mathematical (integers unbounded, floats as reals) in the deductive stage'],
            wall_s=round(time.time() - t0, 2), violations=n_viol)
  with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print(f'{pid}: {len(proved)}/{len(obs)} obligations discharged, {sum(o["status"] == "proved" for o in bobs)}/{len(bobs)} bounded, {len(und)} undecided; bounded stage: '
        f'{rt["cases"] if rt else 0} cases, {rt["clauses"] if rt else 0} clauses, {len(rt_err)} errors; {time.time() - t0:.1f}s')
  for u in und[:6]: print('  undecided: ' + u[:300])
  for e in rt_err[:3]: print('  stage error: ' + e[-600:])
  return code


if __name__ == '__main__':
  main()
