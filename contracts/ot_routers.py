"""C38: optimal-transport routers (vmoe/projects/sparsity_constrained_ot)."""
import types as _types
import z3
from vc import core, loader
from vc import tensor as T
from vc.core import assume, obligation, fresh_real, fresh_int, term
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use
from contracts.training import ok

OT = 'vmoe.projects.sparsity_constrained_ot.ot_routing'
SP = 'vmoe.projects.sparsity_constrained_ot.sparse_projection_routing'
KS = 'vmoe.projects.sparsity_constrained_ot.ksparse_projection_routing'
KL = 'vmoe.projects.sparsity_constrained_ot.kl_projection_routing'
ns = _types.SimpleNamespace
lin = T.dim_term
TOP, ITEM = 'BaseOTNoisyTopExpertsPerItemRouter', 'BaseOTNoisyTopItemsPerExpertRouter'


def truth(t): return t if z3.is_bool(t) else t != 0


@contract('C38', functions=[f'{OT}._replace_combine_weights'], max_paths=40)
def replaced():
  """Any groups, tokens, experts, buffers, assignment and scores."""
  m = loader.load(OT)
  mo = loader.load('vmoe.moe')
  G, S, E, C = [T.new_dim(n) for n in ('G', 'S', 'E', 'C')]
  gates = T.fresh_array('gates', (G, S, E))
  cw = T.fresh_array('cw', (G, S, E, C))
  given = core.choose(3)
  if given == 2:
    with use(m, vmoe=ns(moe=mo)):
      try: m._replace_combine_weights(ns(combine_weights=cw), gates)
      except TypeError: ok('only dense dispatchers are supported', True)
      else: ok('only dense dispatchers are supported', False)
    return
  dw = T.fresh_array('dw', (G, S, E, C), 'bool') if given else None
  with use(m, vmoe=ns(moe=mo)):
    r = m._replace_combine_weights(mo.EinsumDispatcher(combine_weights=cw, dispatch_weights=dw), gates)
  v = lambda a, n: T.ivar(a.atoms[0], n)
  i = g, s, e, c = v(G, 'g'), v(S, 's'), v(E, 'e'), v(C, 'c')
  used = truth(dw.el(*i)) if given else cw.el(*i) > 0
  obligation('the same cells are used', z3.And(z3.BoolVal(r.dispatch_weights is not None and r.dispatch_weights.ndim == 4), truth(r.dispatch_weights.el(*i)) == used))
  obligation('every used cell is combined with the given score of its token and expert', core.to_real(r.combine_weights.el(*i)) == z3.If(used, gates.el(g, s, e), z3.RealVal(0)))


@contract('C38', functions=[f'{OT}.{TOP}._create_dispatcher', f'{OT}.{ITEM}._create_dispatcher_and_metrics'], max_paths=80)
def dispatchers():
  R = loader.load(OT)
  which, bf, opts, comb = core.choose(2), core.choose(3), core.choose(3), core.choose(2)
  r = object.__new__(getattr(R, [TOP, ITEM][which]))
  kw = [None, {}, dict(name='einsum', capacity=4)][opts]
  if kw is None and bf: raise core.PathEnd()
  if bf: kw = dict(kw, bfloat16=bf == 2)
  want = {k: v for k, v in (kw or {}).items() if k != 'bfloat16'}
  r.dispatcher, r.num_selected_experts, r.num_experts = kw, 3, 5
  if which == 0: want['num_selected_experts'] = 3
  seen = []
  def make(g, **k): seen.append((g, k)); return ('dispatcher', g) if which == 0 else (('dispatcher', g), {'m': 2})
  moe = ns(get_top_experts_per_item_dispatcher=make, get_top_items_per_expert_dispatcher=make, Bfloat16Dispatcher=lambda d: ('bf16', d))
  def vmap(f, **k): return lambda g: f(('group of', g))
  with use(R, jax=Over(R.jax, vmap=vmap), vmoe=ns(moe=moe), _replace_combine_weights=lambda d, g: ('combined', d, g)):
    cls, a = getattr(R, [TOP, ITEM][which]), dict(gates_dispatch='plan', **({'gates_combine': 'scores'} if comb else {}))
    d = cls._create_dispatcher(r, **a) if which == 0 else cls._create_dispatcher_and_metrics(r, **a)
  if which: d, m = d; ok('metrics of the dispatcher', m == {'m': 2})
  if len(seen) != 1: raise core.Unsupported('dispatchers made in another way')
  base = ('dispatcher', ('group of', 'plan'))
  if comb: base = ('combined', base, 'scores')
  ok('every group separately, with the configured options', seen[0][1] == want)
  ok('selected by the plan, combined by the scores if given', d == (('bf16', base) if bf == 2 else base))
  ok('configuration kept', r.dispatcher is kw and (bf == 0 or 'bfloat16' in kw))


CALLS = [(SP, 'SparseProjectionTransportTopItemsPerExpertRouter'), (KS, 'KSparseProjectionTransportTopExpertsPerItemRouter'), (KS, 'KSparseProjectionTransportTopItemsPerExpertRouter'),
         (KL, 'KLProjectionNoisyTopExpertsPerItemRouter'), (KL, 'KLProjectionNoisyTopItemsPerExpertRouter')]


@contract('C38', functions=[f'{m}.{c}.__call__' for m, c in CALLS], max_paths=40)
def choices():
  """Which scores select the experts and which combine their outputs."""
  k, soft = core.choose(len(CALLS)), core.choose(2)
  m = loader.load(CALLS[k][0])
  cls = getattr(m, CALLS[k][1])
  r = object.__new__(cls)
  r.num_experts, r.use_softmax_combine_weights = 4, bool(soft)
  x = object()
  S, E = T.new_dim('S'), T.new_dim('E')
  plan, scores = T.fresh_array('plan', (2, S, E)), object()
  seen = []
  def gates(inputs, n):
    ok('scores of the inputs for every expert', inputs is x and n == 4)
    return (plan, scores, {'auxiliary_loss': 7.}) if k in (1, 3) else (plan, scores)
  r._compute_gates = r._compute_gates_softmax_and_metrics = gates
  def make(gates_dispatch, gates_combine=None):
    seen.append((gates_dispatch, gates_combine))
    return 'd' if k in (1, 3) else ('d', {'m': 2})
  r._create_dispatcher = r._create_dispatcher_and_metrics = make
  d, met = cls.__call__(r, x)
  ok('one dispatcher', len(seen) == 1 and d == 'd')
  ok('experts are selected by the transport plan', seen[0][0] is plan)
  ok('and combined by the softmax scores exactly if configured', seen[0][1] is (scores if soft else None) or not soft and seen[0][1] is plan)
  ok('auxiliary loss', met['auxiliary_loss'] == (7. if k in (1, 3) else 0.))


def softmax_of(t):
  c = core.cur()
  tf = c.theory.get(t.decl().name()) if z3.is_app(t) else None
  if tf is None or tf.kind != 'softmax' or len(tf.redpos) != 1: raise core.Unsupported('scores are not a softmax')
  return tf.bind(tf.body, [t.arg(i) for i in range(t.num_args())]), t.arg(tf.redpos[0])


def marginal(name, a, dim, value):
  ok(name + ': one for each', a.ndim == 1)
  i = T.ivar(dim.atoms[0], name.split()[0])
  obligation(name, z3.And(lin(a.shape[0]) == lin(dim), core.to_real(a.el(i)) == value))


@contract('C38', functions=[f'{SP}.{CALLS[0][1]}._compute_gates', f'{SP}.{CALLS[0][1]}._get_sparse_ot_func', f'{SP}._get_squared_l2_ot_algorithm',
                            f'{KS}.{CALLS[1][1]}._compute_gates_softmax_and_metrics', f'{KS}.{CALLS[1][1]}._get_k_sparse_ot_func', f'{KS}.{CALLS[2][1]}._compute_gates', f'{KS}.{CALLS[2][1]}._get_k_sparse_ot_func', f'{KS}._get_sparsity_constrained_ot_algorithm',
                            f'{KL}.{CALLS[3][1]}._compute_gates_softmax_and_metrics', f'{KL}.{CALLS[3][1]}._get_kl_projection_algorithm', f'{KL}.{CALLS[4][1]}._compute_gates', f'{KL}.{CALLS[4][1]}._get_kl_projection_algorithm'], max_paths=200)
def plans():
  """Any groups, tokens, dimensions, experts and parameters; the solvers are opaque: the plan of a group stands for any function of its scores."""
  k = core.choose(5)
  mod, name = CALLS[k]
  m = loader.load(mod)
  c = core.cur()
  G, S, D, E = [T.new_dim(n) for n in ('G', 'S', 'D', 'E')]
  r = object.__new__(getattr(m, name))
  det = bool(core.choose(2)) if k >= 3 else True
  std, sel = fresh_real('std'), fresh_int('selected')
  assume(std.t >= 0)
  r.deterministic, r.noise_std, r.num_selected_experts, r.dtype, r.num_experts = det, std, sel, None, E
  r.adam_lr, r.maxiter, r.use_lbfgs, r.use_implicit_differentiation = 0.01, 20, bool(core.choose(2)) if k == 3 else False, True
  wi, wl = [(0., 0.), (3., 0.), (0., 5.), (3., 5.)][core.choose(4)] if k == 3 else (0., 0.)
  r.importance_loss_weight, r.load_loss_weight = wi, wl
  cap = fresh_int('capacity', 1)
  r.dispatcher = dict(name='einsum', capacity_factor=1.5)
  asked = []
  def capacity(**a):
    a.setdefault('ceil_or_round', 'ceil'); a.setdefault('multiple_of', 4)
    asked.append(a); return cap
  per_expert = z3.ToReal(lin(S)) / z3.ToReal(lin(E))
  def targets(rows, cols, x):
    """targets of the two axes of the scores x of a group"""
    d0, d1 = x.shape
    tokens_first = d0.atoms[0] is S.atoms[0] if hasattr(d0, 'atoms') else None
    if tokens_first is None: raise core.Unsupported('shape of the scores')
    t, e = (rows, cols) if tokens_first else (cols, rows)
    marginal('tokens are sent away once', t, S, z3.RealVal(1))
    marginal('experts get the same number of tokens', e, E, per_expert)
    return tokens_first
  counts = []
  def transport(sim_matrix=None, marginals=None, make_solver=None, **kw):
    targets(marginals[0], marginals[1], sim_matrix)
    return sim_matrix * 2
  def semi(cost_matrix=None, marginals_a=None, marginals_b=None, make_solver=None, max_vmap=None, max_grad_vmap=None, gamma=None):
    first = targets(marginals_a, marginals_b, cost_matrix)
    ok('sparsity of the tokens for token choice, of the experts for expert choice', first == (k == 2))
    counts.append(max_vmap)
    ok('regularised as documented', gamma == 1)
    return cost_matrix * -2
  class Geo:
    def __init__(self, cost_matrix=None, epsilon=None): self.cost, self.eps = cost_matrix, epsilon
  def sinkhorn(geom, lse_mode=None, a=None, b=None, **kw):
    ok('regularised as documented', geom.eps == 1.0)
    targets(a, b, geom.cost)
    ok('at most the configured iterations', kw.get('max_iterations') == 20)
    return ns(matrix=geom.cost * -2)
  s0, e0 = T.ivar(S.atoms[0], 's0'), T.ivar(E.atoms[0], 'e0')
  co = [z3.Real(f'coefficient{i}') for i in range(4)]
  r._importance_auxiliary_loss = lambda g: T.asarr(core.wrap(g.el(s0, e0)))
  r._load_auxiliary_loss = lambda logits, logits_noisy, noise_std, num_selected_experts: T.asarr(core.wrap(co[0] * logits.el(s0, e0) + co[1] * logits_noisy.el(s0, e0) + co[2] * core.to_real(term(noise_std)) + co[3] * core.to_real(term(num_selected_experts))))
  x = T.fresh_array('x', (G, S, D))
  stubs = dict(jaxopt=ns(OptaxSolver=object, LBFGS=object), optax=ns(adam=lambda *a, **kw: None)) if k < 3 else dict(jaxopt=ns(LBFGS=object), geometry=ns(Geometry=Geo), sinkhorn=ns(sinkhorn=sinkhorn))
  stubs['projection'] = ns(projection_transport=transport, kl_projection_transport=transport, _regularized_transport_semi_dual=semi)
  if k in (1, 2): stubs['vmoe'] = ns(moe=ns(compute_capacity=capacity))
  core.assumption('assumed: the transport solvers of jaxopt and ott compute one plan per score matrix (opaque); what the plan satisfies is observed in the bounded stage')
  with use(m, **stubs):
    try: out = r._compute_gates_softmax_and_metrics(x, E) if k in (1, 3) else r._compute_gates(x, E)
    except ValueError:
      obligation('only impossible selections are rejected', z3.And(z3.BoolVal(k in (1, 3)), z3.Not(z3.And(sel.t >= 1, sel.t <= lin(E))))); return
  if k in (1, 3): obligation('selection is possible', z3.And(sel.t >= 1, sel.t <= lin(E)))
  plan, scores = out[0], out[1]
  v = lambda a, n: T.ivar(a.atoms[0], n)
  g, s, e = v(G, 'g'), v(S, 's'), v(E, 'e')
  draws = getattr(c, 'nn_draws', [])
  noisy = bool(draws)
  if k >= 3: obligation('noise exactly if asked for', z3.And(z3.Not(z3.BoolVal(det)), std.t != 0) if noisy else z3.Or(z3.BoolVal(det), std.t == 0))
  else: ok('no noise', not noisy)
  (own, W), = list(c.nn_params.values())
  logits = T.einsum('gsd,de->gse', x, W)
  full = logits
  if noisy:
    obligation('one draw, from the gating stream', z3.BoolVal(len(draws) == 1 and draws[0][0][1] == 'gating'))
    n = draws[0][1]
    obligation('noise for every token and expert', z3.And(z3.BoolVal(n.ndim == 3), *[lin(a) == lin(b) for a, b in zip(n.shape, (G, S, E))]))
    full = logits + n * (std / E)
  def is_softmax(name, t, at, *idx):
    body, over = softmax_of(t)
    obligation(name, z3.And(z3.BoolVal(over.eq(idx[-1])), body == at.el(*idx)), hints={'abstract': True})
  for a in (plan, scores): obligation('for every token and expert', z3.And(z3.BoolVal(a.ndim == 3), *[lin(p) == lin(q) for p, q in zip(a.shape, (G, S, E))]))
  # the combining scores of the noisy token-choice KL router are those of the logits with or without noise (see DESIGN.md)
  if not (noisy and k == 3): is_softmax('combining scores are the softmax over the experts', scores.el(g, s, e), full, g, s, e)
  if k < 3: obligation('every group has its own plan, of its softmax scores', plan.el(g, s, e) == 2 * scores.el(g, s, e), hints={'abstract': True})
  else: obligation('every group has its own plan, of its (noisy) logits', plan.el(g, s, e) == 2 * full.el(g, s, e), hints={'abstract': True})
  if k == 2:
    a = asked[0]
    obligation('as many tokens per expert as its capacity', z3.And(z3.BoolVal(len(asked) == 1 and a['capacity_factor'] == 1.5 and a['ceil_or_round'] == 'ceil' and a['multiple_of'] == 4), core.num(term(a['num_tokens'])) == lin(S), core.num(term(a['num_experts'])) == lin(E)))
  if k == 3:
    met = out[2]
    z = lambda a: a.el(g) if isinstance(a, T.SArr) and a.ndim else core.to_real(core.num(term(a)))
    total = z3.RealVal(0)
    if wi:
      imp = met['importance_loss'].el(g)
      is_softmax('importance of the scores without noise', imp, logits, g, s0, e0)
      total = total + 3 * imp
    if wl and noisy:
      ld = met['load_loss'].el(g)
      obligation('load of the logits, with and without noise', ld == co[0] * logits.el(g, s0, e0) + co[1] * full.el(g, s0, e0) + co[2] * (std.t / z3.ToReal(lin(E))) + co[3] * z3.ToReal(sel.t), hints={'abstract': True})
      total = total + 5 * ld
    obligation('auxiliary loss', z(met['auxiliary_loss']) == total, hints={'abstract': True})
