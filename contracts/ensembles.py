"""C25: ensembles (vmoe/nn/ensemble_routing.py, vit_moe_ensemble.py, evaluate/ensemble.py)."""
import types as _types
import z3
from vc import core, loader
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, term, wrap
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use

ROUTE, EVAL, VIT = 'vmoe.nn.ensemble_routing', 'vmoe.evaluate.ensemble', 'vmoe.nn.vit_moe_ensemble'
ns = _types.SimpleNamespace
lin = T.dim_term


# -- layout: arrays as functions of the flat index, so that any group size is covered.
class Flat:
  """An array given by its elements in row-major order."""
  __vc_symbolic__ = True

  def __init__(self, shape, f): self.shape, self.f = tuple(shape), f
  @property
  def ndim(self): return len(self.shape)
  @property
  def size(self): return wrap(prod(self.shape))

  def el(self, *i):
    k = z3.IntVal(0)
    for x, n in zip(i, self.shape): k = k * t(n) + x
    return self.f(z3.simplify(k, som=True))

  def reshape(self, *shape):
    shape = list(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else list(shape)
    rest = [s for s in shape if not (isinstance(s, int) and s == -1)]
    total, r = z3.simplify(prod(self.shape), som=True), z3.simplify(prod(rest), som=True)
    if len(rest) < len(shape):
      q = None
      for cand in core.cur().sizes:
        if z3.is_true(z3.simplify(cand * r == total, som=True)): q = wrap(cand)
      if q is None:
        for a, b in core.cur().same_size:
          for cand in core.cur().sizes:
            if z3.is_true(z3.simplify(z3.And(total == a, cand * r == b), som=True)) or z3.is_true(z3.simplify(z3.And(total == b, cand * r == a), som=True)): q = wrap(cand)
      if q is None: raise core.Unsupported('size of a dimension given as -1')
      shape = [q if (isinstance(s, int) and s == -1) else s for s in shape]
    elif not z3.is_true(z3.simplify(total == r, som=True)) and not any(z3.is_true(z3.simplify(z3.And(total == a, r == b), som=True)) or z3.is_true(z3.simplify(z3.And(total == b, r == a), som=True)) for a, b in core.cur().same_size):
      raise core.Unsupported('reshape to another size')
    return Flat(shape, self.f)

  def transpose(self, *p):
    p = list(p[0]) if len(p) == 1 and isinstance(p[0], (tuple, list)) else list(p)
    c = core.cur()
    f = z3.Function(c.fresh('Transposed'), z3.IntSort(), z3.RealSort())
    out = Flat([self.shape[a] for a in p], f)
    def at(*old):   # definition of the transposed array at the index that shows element `old`
      assume(z3.Implies(z3.And(*[z3.And(x >= 0, x < t(n)) for x, n in zip(old, self.shape)]), out.el(*[old[a] for a in p]) == self.el(*old)))
    c.transposed.append(at)
    return out
  def swapaxes(self, a, b):
    p = list(range(self.ndim)); p[a], p[b] = p[b], p[a]
    return self.transpose(*p)


def t(n): return z3.IntVal(n) if isinstance(n, int) else T.dim_term(n)


def prod(shape):
  r = z3.IntVal(1)
  for s in shape: r = r * t(s)
  return r


def layout():
  c = core.cur()
  c.transposed = []
  B, M, Tk, H = [T.new_dim(n) for n in ('B', 'M', 'T', 'H')]
  G, s = fresh_int('G', 1), fresh_int('s', 1)
  assume(G.t * s.t == lin(B) * lin(Tk))            # the group size s * M divides the tokens
  S = wrap(s.t * lin(M))
  b, m, tk, h = lin(B), lin(M), lin(Tk), lin(H)
  c.sizes = [G.t, b, m, tk, h, b * m, s.t]
  # G * s = B * T, times any common factor.
  c.same_size = [(G.t * s.t * m * h, b * tk * m * h), (G.t * s.t * m, b * tk * m)]
  X = z3.Function(c.fresh('x'), z3.IntSort(), z3.RealSort())
  return c, B, M, Tk, H, G, s, S, Flat((B * M, Tk, H), X)


@contract('C25', functions=[f'{ROUTE}.reshape_to_group_size_representation', f'{ROUTE}.reshape_from_group_size_representation'])
def layouts():
  """Any batch, token, member, hidden and group sizes (the group a multiple of the members)."""
  R = loader.load(ROUTE)
  c, B, M, Tk, H, G, s, S, x = layout()
  y = R.reshape_to_group_size_representation(x, S, M)
  obligation('groups of the requested size', z3.And(z3.BoolVal(y.ndim == 3), t(y.shape[0]) == G.t, t(y.shape[1]) == S.t, t(y.shape[2]) == lin(H)))
  V = lambda n, hi: (lambda v: (assume(z3.And(v >= 0, v < hi)), v)[1])(z3.Int(c.fresh(n)))
  b, m, k, h = V('b', lin(B)), V('m', lin(M)), V('t', lin(Tk)), V('h', lin(H))
  g, j = V('g', G.t), V('j', s.t)
  assume(g * s.t + j == b * lin(Tk) + k)       # the position of the token among all tokens
  for at in c.transposed: at(b, m, k, h)
  hyp = g * S.t + (j * lin(M) + m) == (b * lin(Tk) + k) * lin(M) + m
  obligation('the position follows', hyp)
  assume(hyp)
  assume((g * S.t + (j * lin(M) + m)) * lin(H) + h == ((b * lin(Tk) + k) * lin(M) + m) * lin(H) + h)
  obligation('copies of a token stay together, one after another by member', y.el(g, j * lin(M) + m, h) == x.el(b * lin(M) + m, k, h))
  z = R.reshape_from_group_size_representation(y, Tk, M)
  obligation('images as before', z3.And(z3.BoolVal(z.ndim == 3), t(z.shape[0]) == lin(B) * lin(M), t(z.shape[1]) == lin(Tk), t(z.shape[2]) == lin(H)))
  n0 = len(c.transposed)
  for at in c.transposed[1:]: at(b, k, m, h)
  for at in c.transposed: at(b, m, k, h)
  obligation('the two layout changes cancel', z.el(b * lin(M) + m, k, h) == x.el(b * lin(M) + m, k, h))


# -- router.
class Rows:
  """All the blocks of an array, as separate arguments."""
  def __init__(self, a): self.a = a


class Blocks(T.SArr):
  def __iter__(self): return iter((Rows(self),))
  def __len__(self): return 1


def block_diag(*xs):
  """jax.scipy.linalg.block_diag of the blocks of an (m, a, b) array: (m * a, m * b)."""
  if len(xs) != 1 or not isinstance(xs[0], Rows): raise core.Unsupported('block_diag of separate arrays')
  a = xs[0].a
  M, A, B = a.axes
  def fn(idx):
    r, cl = idx
    return z3.If(T.eq_digits(r[:len(M)], cl[:len(M)]), a.fn((r[:len(M)], r[len(M):], cl[len(M):])), z3.RealVal(0))
  return T.SArr([M + A, M + B], fn, a.dtype)


def router(R, M, E):
  r = object.__new__(R.NoisyTopExpertsPerItemEnsembleRouter)
  r.ensemble_size, r.num_experts = M, E
  return r


def routing_setup():
  R = loader.load(ROUTE)
  G, M, s, e, H = [T.new_dim(n) for n in ('G', 'M', 's', 'e', 'H')]
  S, E = T.mkdim(s.atoms + M.atoms), T.mkdim(M.atoms + e.atoms)
  x = T.fresh_array('x', (G, S, H))
  v = lambda a, n: (T.ivar(a.atoms[0], n),)
  return R, G, M, s, e, H, S, E, x, v


@contract('C25', functions=[f'{ROUTE}.NoisyTopExpertsPerItemEnsembleRouter._compute_gates_softmax_and_metrics', f'{ROUTE}.reshape_from_diag_blocks'])
def own_experts():
  """Any groups, members, experts per member: scores only for the experts of one's own member."""
  R, G, M, s, e, H, S, E, x, v = routing_setup()
  seen = []
  P = T.fresh_array('scores', (G, M, s, e))
  def members(inputs):
    seen.append(inputs)
    return P, {'m': 1}
  r = router(R, M, E)
  r._super_compute_gates_softmax_and_metrics = members
  def vmap(f):
    # jax.vmap over the groups, with the blocks of each group to unpack.
    return lambda a: T.vmap(lambda z: f(Blocks(z.axes, z.fn, z.dtype)))(a)
  jx = Over(R.jax, vmap=vmap, scipy=ns(linalg=ns(block_diag=block_diag)))
  core.assumption('assumed: jax.scipy.linalg.block_diag puts the blocks on the diagonal and zeros elsewhere')
  with use(R, jax=jx): y, metrics = r._compute_gates_softmax_and_metrics(x)
  g, i, m, m2, k, h = v(G, 'g'), v(s, 'i'), v(M, 'm'), v(M, 'm2'), v(e, 'k'), v(H, 'h')
  inp = seen[0]
  obligation('tokens and members are told apart', z3.And(z3.BoolVal(len(seen) == 1 and inp.ndim == 4), *[lin(a) == lin(b) for a, b in zip(inp.shape, (G, s, M, H))]))
  obligation('copies of one member', inp.el(g, i, m, h) == x.el(g, i + m, h))
  obligation('scores of every token for every expert', z3.And(z3.BoolVal(y.ndim == 3), *[lin(a) == lin(b) for a, b in zip(y.shape, (G, S, E))]))
  at = lambda *ix: y.el(*[T.conv_digits(d, src, dst) for d, src, dst in zip(ix, (T.dim_atoms(G), T.dim_atoms(S), T.dim_atoms(E)), y.axes)])
  obligation('own experts: the scores of the member', at(g, i + m, m + k) == P.el(g, m, i, k))
  obligation('no score for the experts of other members', z3.Implies(m[0] != m2[0], at(g, i + m, m2 + k) == 0))


@contract('C25', functions=[f'{ROUTE}.NoisyTopExpertsPerItemEnsembleRouter._super_compute_gates_softmax_and_metrics'])
def own_parameters():
  """Every member's scores come from its own tokens, parameters and noise."""
  R, G, M, s, e, H, S, E, x, v = routing_setup()
  c = core.cur()
  seen = []
  def scores(self, inputs, num_experts):
    seen.append((inputs, num_experts))
    w = self.param('kernel', None, (H, e))
    seen.append(w)
    return T.einsum('gsh,he->gse', inputs, w), {}
  base = R.routing.NoisyTopExpertsPerItemRouter
  old = base._compute_gates_softmax_and_metrics
  base._compute_gates_softmax_and_metrics = scores
  x4 = T.fresh_array('x4', (G, s, M, H))
  try: y, _ = router(R, M, E)._super_compute_gates_softmax_and_metrics(x4)
  finally: base._compute_gates_softmax_and_metrics = old
  g, i, m, k = v(G, 'g'), v(s, 'i'), v(M, 'm'), v(e, 'k')
  obligation('experts of one member', lin(seen[0][1]) == lin(e))
  obligation('one result per member', z3.And(z3.BoolVal(y.ndim == 4), *[lin(a) == lin(b) for a, b in zip(y.shape, (G, M, s, e))]))
  (own, W), = list(c.nn_params.values())
  obligation('parameters per member', z3.And(z3.BoolVal(W.ndim == 3), *[lin(a) == lin(b) for a, b in zip(W.shape, (H, M, e))]))
  h = T.bvar(H.atoms[0], 'h')
  obligation('scores of the member', y.el(g, m, i, k) == T.make_sum([h], H.atoms, x4.el(g, i, m, (h,)) * W.el((h,), m, k)))
  obligation('randomness per member', z3.BoolVal(c.nn_split.get('params') is True and c.nn_split.get('gating') is True))


@contract('C25', functions=[f'{ROUTE}.NoisyTopExpertsPerItemEnsembleRouter._compute_gates_softmax_and_metrics'], max_paths=60)
def impossible_sizes():
  """Sizes that the members cannot share equally are rejected."""
  R = loader.load(ROUTE)
  core.cur().linear_decide = True
  g, n, k = fresh_int('group', 1), fresh_int('experts', 1), fresh_int('members', -2)
  def accepted(*a):
    obligation('accepted sizes can be shared', z3.And(k.t > 0, term(n % k) == 0, term(g % k) == 0))
    raise core.PathEnd()
  x = ns(ndim=3, shape=(2, g, 4), reshape=accepted)
  r = router(R, k, n)
  try: r._compute_gates_softmax_and_metrics(x)
  except ValueError:
    if core.decide(k.t > 0): obligation('only impossible sizes are rejected', z3.Not(z3.And(term(n % k) == 0, term(g % k) == 0)))
    return


@contract('C25', functions=[f'{VIT}.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.__call__', f'{VIT}.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.create_router', f'{VIT}._parse'])
def layer():
  """The layer routes in the group layout and returns the image layout."""
  m = loader.load(VIT)
  cls = m.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter
  sizes = [None, 0, -1, 1, 3]
  n = sizes[core.choose(len(sizes))]
  o = object.__new__(cls)
  det, over = bool(core.choose(2)), core.choose(3)
  o.ensemble_size, o.group_size, o.num_experts, o.dtype, o.deterministic = n, 'S', 6, 'dt', det
  o.router = None if over == 0 else dict(noise_std=2.) if over == 1 else dict(deterministic=not det)
  base = cls.__mro__[1]
  old = base.__call__
  base.__call__ = lambda self, x: (('moe', x), 'metrics')
  made = []
  class Router:
    def __init__(self, **k): made.append(k)
  try:
    with use(m, reshape_to=lambda x, g, e: ('to', x, g, e), reshape_from=lambda x, k, e: ('from', x, k, e), NoisyTopExpertsPerItemEnsembleRouter=Router):
      x = ns(shape=(8, 5, 4))
      try: y = o(x)
      except ValueError: obligation('only missing sizes are rejected', z3.BoolVal(n is None or n <= 0)); return
      obligation('sizes are checked', z3.BoolVal(n is not None and n > 0))
      obligation('to groups and back', z3.BoolVal(y == (('from', ('moe', ('to', x, 'S', n)), 5, n), 'metrics')))
      o.create_router()
      k = made[0]
      obligation('router of this ensemble', z3.BoolVal(k['ensemble_size'] == n and k['num_experts'] == 6 and k['deterministic'] == (det if over != 2 else not det) and k.get('noise_std') == (2. if over == 1 else None)))
  finally: base.__call__ = old


# -- losses and predictions.
def logits_setup():
  E = loader.load(EVAL)
  B, M, C = [T.new_dim(n) for n in ('B', 'M', 'C')]
  x = T.fresh_array('logits', (T.mkdim(B.atoms + M.atoms), C))
  v = lambda a, n: (T.ivar(a.atoms[0], n),)
  return E, B, M, C, x, v


def log_mean(LP, M, b, cc):
  """log of the mean over the members of exp(LP)."""
  q = T.bvar(M.atoms[0], 'q')
  ex, lg = z3.Function('exp', z3.RealSort(), z3.RealSort()), z3.Function('log', z3.RealSort(), z3.RealSort())
  return lg(T.make_sum([q], M.atoms, ex(LP.el(b, (q,), cc)))) - lg(z3.ToReal(lin(M)))


@contract('C25', functions=[f'{EVAL}._ensemble_log_mean'])
def mean_probability():
  """Any batch, ensemble and class counts, any normalisation."""
  E, B, M, C, x, v = logits_setup()
  seen = []
  LP = T.fresh_array('logp', (B, M, C))
  def norm(z): seen.append(z); return LP
  r = E._ensemble_log_mean(x, M, norm)
  b, m, k = v(B, 'b'), v(M, 'm'), v(C, 'c')
  obligation('members of the same example are normalised', z3.And(z3.BoolVal(len(seen) == 1 and seen[0].ndim == 3), *[lin(a) == lin(d) for a, d in zip(seen[0].shape, (B, M, C))],
                                                                 seen[0].el(b, m, k) == x.el(b + m, k)))
  obligation('one prediction per example', z3.And(z3.BoolVal(r.ndim == 2), lin(r.shape[0]) == lin(B), lin(r.shape[1]) == lin(C)))
  obligation('log of the mean probability', r.el(b, k) == log_mean(LP, M, b, k), hints={'abstract': True})


class NaN: pass


@contract('C25', functions=[f'{EVAL}.ensemble_softmax_xent_eval', f'{EVAL}.ensemble_sigmoid_xent_eval', f'{EVAL}.label_pred_ensemble_softmax', f'{EVAL}.label_pred_ensemble_sigmoid', f'{EVAL}._multiply_no_nan'])
def evaluation():
  """Losses and predictions from the mean probabilities (contract of _ensemble_log_mean)."""
  E, B, M, C, x, v = logits_setup()
  k = core.choose(4)
  y = T.fresh_array('labels', (B, C))
  LP, LN = T.fresh_array('logp', (B, C)), T.fresh_array('lognotp', (B, C))
  names = {}
  def mean(logits, n, fn):
    i = T.ivar(B.atoms[0], 'b'), T.ivar(M.atoms[0], 'm'), T.ivar(C.atoms[0], 'c')
    obligation('of these members', lin(n) == lin(M))
    a = logits.el(i[:2], i[2:])
    if core.entailed(a == x.el(i[:2], i[2:])): names['p'] = fn; return LP
    obligation('otherwise of the opposite scores', a == -x.el(i[:2], i[2:])); names['n'] = fn
    return LN
  sm, sg = E.jax.nn.log_softmax, E.jax.nn.log_sigmoid
  fn = [E.ensemble_softmax_xent_eval, E.ensemble_sigmoid_xent_eval, E.label_pred_ensemble_softmax, E.label_pred_ensemble_sigmoid][k]
  jx = Over(E.jax, lax=Over(E.jax.lax, mul=lambda a, b: T.asarr(a) * b))
  with use(E, _ensemble_log_mean=mean, jax=jx): r = fn(x, y, M) if k < 2 else fn(x, M)
  b, c1 = v(B, 'b'), v(C, 'c')
  q = T.bvar(C.atoms[0], 'q')
  obligation('normalised as named', z3.BoolVal(names.get('p') is ([sm, sg, sm, sg][k]) and names.get('n') is (sg if k == 1 else None)))
  obligation('one value per example', z3.And(z3.BoolVal(r.ndim == 1), lin(r.shape[0]) == lin(B)))
  if k == 0: obligation('cross entropy', r.el(b) == -T.make_sum([q], C.atoms, y.el(b, (q,)) * LP.el(b, (q,))), hints={'abstract': True})
  elif k == 1: obligation('cross entropy', r.el(b) == -T.make_sum([q], C.atoms, y.el(b, (q,)) * LP.el(b, (q,)) + (1 - y.el(b, (q,))) * LN.el(b, (q,))), hints={'abstract': True})
  else: obligation('most probable class', z3.And(r.el(b) >= 0, r.el(b) < lin(C), LP.el(b, (r.el(b),)) >= LP.el(b, c1)))


@contract('C25', functions=[f'{EVAL}.ensemble_softmax_xent_train', f'{EVAL}.ensemble_sigmoid_xent_train'])
def training():
  """Every member is trained on the labels of its own example."""
  E, B, M, C, x, v = logits_setup()
  k = core.choose(2)
  y = T.fresh_array('labels', (B, C))
  seen = []
  L = T.fresh_array('loss', (T.mkdim(B.atoms + M.atoms),) if not k else (T.mkdim(B.atoms + M.atoms), C))
  def loss(lo, la, *a, **kw): seen.append((lo, la)); return L
  op = Over(E.optax, **({'softmax_cross_entropy': loss} if k == 0 else {'sigmoid_binary_cross_entropy': loss}))
  core.assumption('assumed: optax.softmax_cross_entropy and sigmoid_binary_cross_entropy are per-example losses')
  with use(E, optax=op): r = (E.ensemble_softmax_xent_train, E.ensemble_sigmoid_xent_train)[k](x, y, M)
  b, m, c1 = v(B, 'b'), v(M, 'm'), v(C, 'c')
  lo, la = seen[0]
  obligation('scores as given', z3.BoolVal(len(seen) == 1 and lo is x))
  obligation('labels of the example for every member', z3.And(z3.BoolVal(la.ndim == 2), lin(la.shape[0]) == lin(B) * lin(M), la.el(T.conv_digits(b + m, B.atoms + M.atoms, la.axes[0]), c1) == y.el(b, c1)))
  q = T.bvar(C.atoms[0], 'q')
  obligation('one loss per member', z3.And(z3.BoolVal(r.ndim == 1), r.el(b + m) == (L.el(b + m) if k == 0 else T.make_sum([q], C.atoms, L.el(b + m, (q,))))))
