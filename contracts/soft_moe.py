"""C26: soft routing (vmoe/projects/soft_moe/router.py)."""
import z3
from vc import core, loader
from vc import tensor as T
from vc.core import assume, obligation, fresh_real, term, wrap
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use

MOD = 'vmoe.projects.soft_moe.router'
lin = T.dim_term


def args_of(t, decl, out):
  """Arguments of the applications of decl in t."""
  if z3.is_app(t):
    if t.decl().eq(decl): out.append([t.arg(i) for i in range(t.num_args())])
    for ch in t.children(): args_of(ch, decl, out)


def bodies(t, seen=None):
  """t and the definitions of the sums and softmaxes in it, with their actual parameters."""
  c = core.cur()
  out = [t]
  seen = set() if seen is None else seen
  def go(e):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_app(e):
      n = e.decl().name()
      if n in c.theory and getattr(c.theory[n], 'body', None) is not None:
        tf = c.theory[n]
        a = [e.arg(i) for i in range(e.num_args())]
        out.extend(bodies(tf.bind(tf.body, a), seen))
      for ch in e.children(): go(ch)
  go(t)
  return out


@contract('C26', functions=[f'{MOD}.SoftRouter.__call__', f'{MOD}.SoftRouter.add_noise', f'{MOD}.normalize'], max_paths=80)
def weights():
  """Any groups, tokens, dimensions, experts and slots; any parameters and noise."""
  R = loader.load(MOD)
  c = core.cur()
  G, M, D, N, P = [T.new_dim(n) for n in ('G', 'M', 'D', 'N', 'P')]
  given, det = core.choose(2), bool(core.choose(2))
  r = object.__new__(R.SoftRouter)
  std = fresh_real('std')
  assume(std.t >= 0)
  made = []
  r.num_experts, r.num_slots, r.capacity_factor, r.noise_std, r.deterministic, r.dtype = N, P if given else None, 1.0, std, det, None
  r.mu_init = r.scale_init = r.precision = r.partition_spec = None
  r.compute_similarity_metrics = False
  r.get_metrics = lambda *a: {}
  def capacity(tokens, experts, factor, ceil_or_round='ceil', multiple_of=4):
    obligation('slots from the capacity factor', z3.And(lin(tokens) == lin(M), lin(experts) == lin(N), z3.BoolVal(factor == 1.0)))
    return P
  class Disp:
    def __init__(self, combine_weights, dispatch_weights=None, **k): made.append((combine_weights, dispatch_weights))
  x = T.fresh_array('x', (G, M, D))
  core.assumption('contracts of compute_capacity (C06) and EinsumDispatcher (C04)')
  with use(R, EinsumDispatcher=Disp, Bfloat16Dispatcher=lambda d: d, moe=Over(R.moe, compute_capacity=capacity)): R.SoftRouter.__call__(r, x)
  obligation('one dispatcher', z3.BoolVal(len(made) == 1))
  cw, dw = made[0]
  for w in (cw, dw): obligation('weights between every token and slot', z3.And(z3.BoolVal(w is not None and w.ndim == 4), *[lin(a) == lin(b) for a, b in zip(w.shape, (G, M, N, P))]))
  v = lambda a, n: T.ivar(a.atoms[0], n)
  g, m, n, p = v(G, 'g'), v(M, 'm'), v(N, 'n'), v(P, 'p')
  mb, nb, pb = T.bvar(M.atoms[0], 'mb'), T.bvar(N.atoms[0], 'nb'), T.bvar(P.atoms[0], 'pb')
  obligation('weights are not negative', z3.And(cw.el(g, m, n, p) >= 0, dw.el(g, m, n, p) >= 0))
  obligation('a slot takes a convex combination of the tokens', T.make_sum([mb], M.atoms, dw.el(g, mb, n, p)) == 1)
  obligation('a token takes a convex combination of the slots', T.make_sum([nb, pb], [N.atoms[0], P.atoms[0]], cw.el(g, m, nb, pb)) == 1)
  uses = []
  for w in (cw, dw):
    for b in bodies(w.el(g, m, n, p)): args_of(b, x.decl, uses)
  obligation('weights of a group depend on its own tokens', z3.And(z3.BoolVal(bool(uses)), *[u[0] == g for u in uses]), hints={'abstract': True})
  noisy = len(getattr(c, 'nn_draws', []))
  if noisy: obligation('noise only if asked for', z3.And(z3.BoolVal(not det), std.t > 0))
  elif not det: obligation('noise if asked for', std.t <= 0)
