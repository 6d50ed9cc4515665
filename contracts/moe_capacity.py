"""C06: expert capacity."""
import z3
from vc import core, loader
from vc.core import assume, obligation, fresh_int, fresh_real, SInt, wrap, term
from vc.engine import contract


def _ceil(t): return -z3.ToInt(-t)


@contract('C06', functions=['vmoe.moe.compute_capacity'])
def compute_capacity():
  moe = loader.load('vmoe.moe')
  n = fresh_int('num_tokens', 1)
  e = fresh_int('num_experts', 1)
  f = fresh_real('capacity_factor'); assume(f > 0)
  mode = ['ceil', 'round'][core.choose(2)]
  multk = core.choose(3)
  mult = [None, 0, None][multk]
  if multk == 2:
    mult = fresh_int('multiple_of', 1)
  load = z3.ToReal(n.t) * f.t / z3.ToReal(e.t)
  avg = fresh_int('avg')      # spec: the rounded average load.
  if mode == 'ceil':
    assume(z3.And(z3.ToReal(avg.t) >= load, z3.ToReal(avg.t) - 1 < load))
  else:
    h = z3.RealVal('1/2')
    d = z3.ToReal(avg.t) - load
    assume(z3.Or(z3.And(d < h, d > -h), z3.And(z3.Or(d == h, d == -h), avg.t % 2 == 0)))
  try:
    c = moe.compute_capacity(n, e, f, mode, mult)
  except ValueError:
    obligation('rejects-only-zero-load', avg.t < 1)
    return
  c = term(c)
  obligation('average-load-at-least-one', avg.t >= 1)
  if multk < 2:
    obligation('capacity-is-average', c == avg.t)
  else:
    m = mult.t
    obligation('positive', c >= 1)
    obligation('multiple', core.divides(m, c))
    obligation('not-below-load', c >= avg.t)
    obligation('smallest', c - m < avg.t)
