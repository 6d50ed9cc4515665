"""Run-time contract stage: the same contracts, evaluated on the real code.

It replays failed obligations on the real functions and is the labelled bounded
stand-in for functions outside the verifier's reach. Each check function gets a
Run object and calls run.case(...) for every input and run.expect(...) for every
contract clause.
"""
import itertools
import json
import os
import random
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
CHECKS = {}


class Failed(Exception):
  pass


class Stop(Exception):
  pass


def check(prop, need=None):
  def deco(f):
    for p in ([prop] if isinstance(prop, str) else prop):
      CHECKS.setdefault(p, []).append(f)
    return f
  return deco


class Run:

  def __init__(self, pid, seed, tier, budget):
    self.pid, self.seed, self.tier = pid, seed, tier
    self.deadline = time.time() + budget
    self.cases = 0
    self.clauses = 0
    self.distinct = set()
    self.samples = []
    self.violations = []
    self.errors = []
    self.current = None
    self.known = []
    self.contracts = set()

  @property
  def thorough(self): return self.tier == 'thorough'

  def n(self, quick, thorough=None):
    return quick if not self.thorough else (thorough or quick * 8)

  def out_of_time(self):
    return time.time() > self.deadline

  def case(self, _name, **inp):
    if self.out_of_time(): raise Stop()
    self.cases += 1
    self.current = (_name, inp)
    key = _name + ':' + short(inp, 400)
    self.distinct.add(key)
    if len(self.samples) < 5 and (self.cases < 4 or self.cases % 37 == 0):
      self.samples.append(key[:300])

  def expect(self, cond, contract, msg=''):
    self.clauses += 1
    self.contracts.add(contract)
    if not bool(cond):
      raise Failed(contract, msg)

  def violation(self, contract, msg):
    name, inp = self.current or ('?', {})
    self.violations.append(dict(contract=contract, check=name, message=str(msg)[:2000], input=short(inp, 6000)))


def short(x, n=2000):
  s = _repr(x)
  return s if len(s) <= n else s[:n] + '...'


def _repr(x):
  try:
    import numpy as np
    if isinstance(x, dict): return '{' + ', '.join(f'{k}: {_repr(v)}' for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)): return '[' + ', '.join(_repr(v) for v in x) + ']'
    if hasattr(x, 'shape') and hasattr(x, 'dtype'):
      return f'array{tuple(x.shape)}{np.asarray(x).tolist()!r}' if x.size < 400 else f'array{tuple(x.shape)}'
    return repr(x)
  except Exception:
    return '<unprintable>'


def repo_frames(e):
  tb, out = e.__traceback__, []
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(REPO + '/'):
      out.append(f'{os.path.relpath(fn, REPO)}:{tb.tb_lineno}')
    tb = tb.tb_next
  return out


def run_checks(pid, seed, tier, budget, fill=0):
  """Every check function once within the budget, then again with new random inputs for `fill` seconds in all."""
  run = Run(pid, seed, tier, budget)
  fns = CHECKS.get(pid, [])
  share = budget / max(len(fns), 1)
  start = time.time()
  end = start + budget
  run.truncated, run.rounds, took = [], {}, {}
  def one(f, r):
    run.rng = random.Random(f'{seed}-{f.__name__}' + (f'-{r}' if r else ''))
    import numpy as np
    run.np = np.random.default_rng(abs(hash_str(f'{seed}-{f.__name__}' + (f'-{r}' if r else ''))))
    state = lambda: (run.rng.getstate(), str(run.np.bit_generator.state))
    was = state()
    run.current = (f.__name__, {})
    run.rounds[f.__name__] = r + 1
    t = time.time()
    try:
      f(run)
    except Stop:
      if not r: run.truncated.append(f.__name__)
    except Failed as e:
      run.violation(e.args[0], e.args[1] if len(e.args) > 1 else '')
    except (KeyboardInterrupt, MemoryError):
      raise
    except BaseException as e:
      fr = repo_frames(e)
      txt = ''.join(traceback.format_exception(e))[-1800:]
      if fr and not isinstance(e, (ImportError, ModuleNotFoundError)) and _innermost_ok(e):
        run.violation('no-exception-on-valid-input', f'{type(e).__name__}: {e} at {fr[-1]}\n{txt}')
      else:
        run.errors.append(f'{f.__name__}: {txt}')
    run.drew = state() != was
    took[f] = took.get(f, 0) + time.time() - t
  for i, f in enumerate(fns):
    # what the others need not is left for this one.
    run.deadline = time.time() + max(share, end - time.time() - share * .5 * (len(fns) - i - 1))
    one(f, 0)
  live = list(fns)
  while live and not run.violations and not run.errors and time.time() < start + fill:
    f = min(live, key=lambda f: took[f])       # the cheapest so far
    run.deadline = max(start + fill, time.time() + 1)
    one(f, run.rounds[f.__name__])
    if not run.drew: live.remove(f)            # its inputs are not random
  return run


def _innermost_ok(e):
  return True


def hash_str(s):
  h = 1469598103934665603
  for ch in s.encode():
    h = ((h ^ ch) * 1099511628211) & ((1 << 63) - 1)
  return h


def raises(fn, *types):
  """Calls fn; True if it raised one of types (default: any Exception)."""
  try:
    fn()
  except (types or (Exception,)):
    return True
  return False
