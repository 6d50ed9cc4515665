"""Runs contract harnesses and collects obligations."""
import linecache
import os
import sys
import time
import traceback

import z3

from vc import core, loader, prove, tensor
from vc import loops
from vc import stubs  # registers the assumed contracts
from vc import nnstub

HARNESSES = {}   # property -> [Harness]


class Harness:

  def __init__(self, prop, name, fn, functions, opts):
    self.prop, self.name, self.fn, self.functions, self.opts = prop, name, fn, functions, opts


def contract(prop, functions=(), **opts):
  """Registers a contract harness: it sets up the precondition on symbolic
  inputs, calls the real function(s), and states postconditions as obligations."""
  def deco(f):
    props = prop if isinstance(prop, (list, tuple)) else [prop]
    for p in props:
      HARNESSES.setdefault(p, []).append(Harness(p, f.__name__, f, list(functions), dict(opts)))
    return f
  return deco


def _innermost_in_repo(e):
  """True if the exception was raised by /repo code or deliberately by a stub it called."""
  tb = e.__traceback__
  last, in_repo = None, False
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    last = (fn, tb.tb_lineno)
    in_repo = in_repo or fn.startswith(loader.REPO + '/')
    tb = tb.tb_next
  if last is None or not in_repo: return False
  if isinstance(e, (TypeError, AttributeError)) and not linecache.getline(*last).strip().startswith('raise '):
    # an operation that a symbolic stand-in does not implement is beyond the verifier's reach, not a defect.
    import re
    for n in re.findall(r"'(\w+)'", str(e)) + re.findall(r'\b(\w+)\.\w+\(\)', str(e)):
      if any(isinstance(getattr(mod, n, None), type) and getattr(getattr(mod, n), '__module__', '').startswith(('vc', 'contracts'))
             for name, mod in list(sys.modules.items()) if name.startswith(('vc.', 'contracts.'))): return False
    if any(q in str(e) for q in ('vc.', 'contracts.', 'SimpleNamespace', 'Over')): return False
  if last[0].startswith(loader.REPO + '/'): return True
  return ('/vc/' in last[0] or '/contracts/' in last[0]) and 'raise ' in linecache.getline(*last)


def run_harness(h, budget=120.0, timeout=20.0, want_smt2=False):
  """Returns a dict with obligations and their status."""
  t0 = time.time()
  out = dict(bounded=h.opts.get('bounded'), harness=h.name, obligations=[], paths=0, covers=0, error=None, functions=set(), assumptions=set())
  loader.USED.clear()
  core.ASSUMED.clear()
  executed = set()

  def prof(frame, event, arg):
    if event == 'call':
      fn = frame.f_code.co_filename
      if fn.startswith(loader.REPO + '/'):
        executed.add((os.path.relpath(fn, loader.REPO), frame.f_code.co_qualname))

  res = out['obligations']
  seen, keep = set(), []
  try:
    def thunk():
      sys.setprofile(prof)
      try:
        return h.fn()
      finally:
        sys.setprofile(None)
    for p in core.explore(thunk, max_paths=h.opts.get('max_paths', 400), deadline=t0 + budget):
      out['paths'] += 1
      old = core._CUR[0]
      core._CUR[0] = p.ctx
      try:
        if p.kind == 'raise':
          if not _innermost_in_repo(p.value):
            raise core.Unsupported('library error on symbolic values: ' + ''.join(
                traceback.format_exception_only(p.value)).strip() + ' @ ' + _where(p.value))
          obs = p.ctx.obligations + [(f'no-exception', z3.BoolVal(False), list(p.pc), {'detail': repr(p.value)[:300] + ' @ ' + _where(p.value)})]
        else:
          obs = p.ctx.obligations
        covered = False
        for (name, goal, hyps, hints) in obs:
          key = (name, goal.get_id(), tuple(x.get_id() for x in hyps))
          if key in seen: continue      # same obligation on a shared path prefix
          seen.add(key); keep.append((goal, hyps))
          if time.time() - t0 > budget:
            res.append(dict(name=name, status='unknown', seconds=0, detail='budget exhausted'))
            continue
          hints = dict(hints, check_vacuity=True)
          r = prove.discharge(p.ctx, name, goal, hyps, hints, timeout, want_smt2)
          d = dict(name=name, status=r.status, seconds=round(r.seconds, 3), lemmas=r.lemmas)
          if hints.get('detail'): d['detail'] = hints['detail']
          if r.model: d['model'] = dict(list(r.model.items())[:60])
          if r.smt2: d['smt2'] = r.smt2
          res.append(d)
        if obs and p.kind == 'return' and out['covers'] < 3:
          if prove.cover(p.ctx, p.pc) != 'unsat': out['covers'] += 1
      finally:
        core._CUR[0] = old
  except core.Unsupported as e:
    out['error'] = f'unsupported: {e} @ {_where(e)}'
  except Exception as e:  # engine or contract bug: never a violation
    out['error'] = 'engine: ' + ''.join(traceback.format_exception(e))[-1500:]
  out['functions'] = sorted(f'{a}:{b}' for a, b in executed if b != '<module>' and not _is_class(a, b))
  out['assumptions'] = sorted('assumed library contract: ' + u for u in loader.USED) + sorted(core.ASSUMED)
  out['seconds'] = round(time.time() - t0, 2)
  return out


def _is_class(path, qual):
  mod = loader.MODULES.get(path[:-3].replace('/', '.'))
  o = mod
  for part in qual.split('.'):
    if part == '<locals>': return False
    o = getattr(o, part, None)
  return isinstance(o, type)


def _where(e):
  tb = e.__traceback__
  w = []
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(loader.REPO) or '/vc/' in fn or '/contracts/' in fn:
      w.append(f'{os.path.basename(fn)}:{tb.tb_lineno}')
    tb = tb.tb_next
  return ' > '.join(w[-4:])
