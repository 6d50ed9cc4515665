"""C31: routers (vmoe/nn/routing.py): scores, noise, balancing losses, dispatcher options."""
import types as _types
import z3
from vc import core, loader
from vc import tensor as T
from vc.core import assume, obligation, fresh_real, fresh_int, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use
from contracts.soft_moe import bodies, args_of

MOD = 'vmoe.nn.routing'
ns = _types.SimpleNamespace
lin = T.dim_term
RR = z3.RealSort()
TOP, ITEM = 'NoisyTopExpertsPerItemRouter', 'NoisyTopItemsPerExpertRouter'


def var(x, axis=None):
  d = x - T.reduce_mean(x, axis, keepdims=True) if axis is not None else x - T.reduce_mean(x)
  return T.reduce_mean(d * d, axis)


def sqrt_axiom():
  s, x = z3.Function('sqrt', RR, RR), z3.Real(core.cur().fresh('x'))
  assume(z3.ForAll([x], z3.Implies(x >= 0, z3.And(s(x) >= 0, s(x) * s(x) == x)), patterns=[s(x)]))


@contract('C31', functions=[f'{MOD}.{TOP}._compute_gates_softmax_and_metrics', f'{MOD}.{ITEM}._compute_gates_softmax'], max_paths=80)
def scores():
  """Any groups, tokens, dimensions and experts; any parameters and noise."""
  R = loader.load(MOD)
  c = core.cur()
  which = core.choose(2)
  G, S, D, E = [T.new_dim(n) for n in ('G', 'S', 'D', 'E')]
  r = object.__new__(getattr(R, [TOP, ITEM][which]))
  det = bool(core.choose(2))
  std, k = fresh_real('std'), fresh_int('selected')
  assume(std.t >= 0)
  r.deterministic, r.noise_std, r.num_selected_experts, r.dtype, r.num_experts = det, std, k, None, E
  r.gshard_loss_weight, r.importance_loss_weight, r.load_loss_weight = 2.0, 3.0, 5.0
  calls = []
  s0, e0 = T.ivar(S.atoms[0], 's0'), T.ivar(E.atoms[0], 'e0')
  co = [z3.Real(f'coefficient{i}') for i in range(4)]
  # the losses of a group, of which only what they are applied to matters here (see `balance`).
  def importance(gates): calls.append('importance'); return T.asarr(wrap(gates.el(s0, e0)))
  def gshard(gates): calls.append('gshard'); return T.asarr(wrap(gates.el(s0, e0)))
  def load(logits, logits_noisy, noise_std, num_selected_experts):
    calls.append('load')
    return T.asarr(wrap(co[0] * logits.el(s0, e0) + co[1] * logits_noisy.el(s0, e0) + co[2] * core.to_real(term(noise_std)) + co[3] * core.to_real(term(num_selected_experts))))
  r._importance_auxiliary_loss, r._gshard_auxiliary_loss, r._load_auxiliary_loss = importance, gshard, load
  x = T.fresh_array('x', (G, S, D))
  try: out = r._compute_gates_softmax_and_metrics(x, E) if which == 0 else (r._compute_gates_softmax(x, E), None)
  except ValueError:
    obligation('only impossible selections are rejected', z3.And(z3.BoolVal(which == 0), z3.Not(z3.And(k.t >= 1, k.t <= lin(E))))); return
  w, metrics = out
  if which == 0: obligation('selection is possible', z3.And(k.t >= 1, k.t <= lin(E)))
  v = lambda a, n: T.ivar(a.atoms[0], n)
  g, s, e = v(G, 'g'), v(S, 's'), v(E, 'e')
  obligation('scores of every token for every expert', z3.And(z3.BoolVal(w.ndim == 3), *[lin(a) == lin(b) for a, b in zip(w.shape, (G, S, E))]))
  eb, db = T.bvar(E.atoms[0], 'eb'), T.bvar(D.atoms[0], 'db')
  obligation('scores are positive', w.el(g, s, e) > 0)
  obligation('scores sum to one', T.make_sum([eb], E.atoms, w.el(g, s, eb)) == 1)
  draws = getattr(c, 'nn_draws', [])
  noisy = bool(draws)
  obligation('noise exactly if asked for', z3.And(z3.Not(z3.BoolVal(det)), std.t != 0) if noisy else z3.Or(z3.BoolVal(det), std.t == 0))
  (own, W), = list(c.nn_params.values())
  logits = T.einsum('gsd,de->gse', x, W)
  if noisy:
    obligation('one draw, from the gating stream', z3.BoolVal(len(draws) == 1 and draws[0][0][1] == 'gating'))
    n = draws[0][1]
    obligation('noise for every token and expert', z3.And(z3.BoolVal(n.ndim == 3), *[lin(a) == lin(b) for a, b in zip(n.shape, (G, S, E))]))
    full = logits + n * (std / E)
  else: full = logits
  def softmax_of(t):
    tf = c.theory.get(t.decl().name()) if z3.is_app(t) else None
    if tf is None or tf.kind != 'softmax' or len(tf.redpos) != 1: raise core.Unsupported('scores are not a softmax')
    return tf.bind(tf.body, [t.arg(i) for i in range(t.num_args())]), t.arg(tf.redpos[0])
  def is_softmax(name, t, at, *idx):
    body, over = softmax_of(t)
    obligation(name, z3.And(z3.BoolVal(over.eq(idx[-1])), body == at.el(*idx)), hints={'abstract': True})
  is_softmax('softmax over the experts of the (noisy) logits', w.el(g, s, e), full, g, s, e)
  if which == 1: return
  if sorted(set(calls)) != (['gshard', 'importance', 'load'] if noisy else ['gshard', 'importance']): raise core.Unsupported('losses computed in another way')
  names = ['importance_loss', 'gshard_loss'] + ['load_loss'] * noisy
  obligation('losses of every group', z3.And(*[z3.And(z3.BoolVal(n in metrics and metrics[n].ndim == 1), lin(metrics[n].shape[0]) == lin(G)) for n in names + ['auxiliary_loss']]))
  imp, gs = metrics['importance_loss'].el(g), metrics['gshard_loss'].el(g)
  is_softmax('importance of the scores without noise', imp, logits, g, s0, e0)
  is_softmax('gshard loss of the scores used', gs, full, g, s0, e0)
  total = 2 * gs + 3 * imp
  if noisy:
    ld = metrics['load_loss'].el(g)
    want = co[0] * logits.el(g, s0, e0) + co[1] * full.el(g, s0, e0) + co[2] * (std.t / z3.ToReal(lin(E))) + co[3] * z3.ToReal(k.t)
    obligation('load of the logits, with and without noise', ld == want, hints={'abstract': True})
    total = total + 5 * ld
  obligation('auxiliary loss', metrics['auxiliary_loss'].el(g) == total, hints={'abstract': True})


@contract('C31', functions=[f'{MOD}._weighted_sum'], bounded='one to three terms')
def weighted():
  """Losses with weight zero are not even looked at (they may be NaN)."""
  R = loader.load(MOD)
  n = 1 + core.choose(3)
  w = [fresh_real(f'w{i}') for i in range(n)]
  x = [fresh_real(f'x{i}') for i in range(n)]
  r = R._weighted_sum(*zip(w, x))
  want = z3.RealVal(0)
  for a, b in zip(w, x): want = want + z3.If(a.t > 0, a.t * b.t, 0)
  obligation('sum of the losses with positive weight', core.to_real(term(r)) == want)


def squared_variation(r, x):
  """r is var(x) / mean(x)^2; proved for any values in place of the variance and the mean."""
  v, mu = var(x).el(), T.reduce_mean(x).el()
  V, M = z3.Real('V'), z3.Real('M')
  s = z3.Function('sqrt', RR, RR)
  t = z3.substitute(core.to_real(r.el()), (v, V), (mu, M))
  q = z3.Real('root')
  t = z3.substitute(t, (s(V), q))
  obligation('squared coefficient of variation', z3.Implies(z3.And(M > 0, V >= 0, q >= 0, q * q == V), t * M * M == V), hints={'abstract': True})


def classmethod_of(R, name): return getattr(getattr(R, TOP), name)


@contract('C31', functions=[f'{MOD}.{TOP}._gshard_auxiliary_loss', f'{MOD}.{TOP}._importance_auxiliary_loss', f'{MOD}.{TOP}._load_auxiliary_loss'])
def balance():
  """Any number of tokens and experts, any scores."""
  R = loader.load(MOD)
  c = core.cur()
  k = core.choose(3)
  S, E = T.new_dim('S'), T.new_dim('E')
  x = T.fresh_array('gates', (S, E))
  sqrt_axiom()
  jn = Over(R.jnp, std=lambda a, axis=None: T.sqrt(var(a, axis)), var=var)
  with use(R, jnp=jn):
    if k == 0:
      r = classmethod_of(R, '_gshard_auxiliary_loss')(x)
      sb, eb, s2 = T.bvar(S.atoms[0], 'sb'), T.bvar(E.atoms[0], 'eb'), T.bvar(S.atoms[0], 's2')
      top = T.argmax(x, 1)
      s_, e_ = z3.ToReal(lin(S)), z3.ToReal(lin(E))
      frac = z3.ToReal(T.make_sum([sb], S.atoms, z3.If(top.el(sb) == eb, z3.IntVal(1), z3.IntVal(0)))) / s_
      mean = T.make_sum([s2], S.atoms, x.el(s2, eb)) / s_
      want = T.make_sum([eb], E.atoms, frac * mean) / e_ * (e_ * e_)
      obligation('experts times the sum of fraction and mean score', r.el() == want, hints={'abstract': True})
    elif k == 1:
      r = classmethod_of(R, '_importance_auxiliary_loss')(x)
      imp = T.reduce_sum(x, 0)
      squared_variation(r, imp)
    else:
      n = T.fresh_array('noisy', (S, E))
      K = T.new_dim('K')
      assume(lin(K) <= lin(E))
      sd = fresh_real('std'); assume(sd.t > 0)
      cdf = lambda z: T.lift1(lambda q: z3.Function('cdf', RR, RR)(core.to_real(q)), 'float32')(z)
      seen = []
      def cdf_(z): seen.append(z); return cdf(z)
      with use(R, jax=Over(R.jax, scipy=ns(stats=ns(norm=ns(cdf=cdf_))))): r = classmethod_of(R, '_load_auxiliary_loss')(x, n, noise_std=sd, num_selected_experts=K)
      s, e = T.ivar(S.atoms[0], 's'), T.ivar(E.atoms[0], 'e')
      kth = T.top_k(n, K)[0].el(s, lin(K) - 1)
      obligation('noise needed to reach the last selected score', seen[0].el(s, e) * sd.t == kth - x.el(s, e), hints={'abstract': True})
      p = T.reduce_mean(1. - cdf(seen[0]), 0)
      squared_variation(r, p)


@contract('C31', functions=[f'{MOD}.{TOP}._create_dispatcher', f'{MOD}.{TOP}.__call__', f'{MOD}.{ITEM}._create_dispatcher_and_metrics', f'{MOD}.{ITEM}.__call__'], max_paths=80)
def dispatchers():
  """The configured dispatcher is made for every group from the scores."""
  R = loader.load(MOD)
  which, bf, opts = core.choose(2), core.choose(3), core.choose(3)
  r = object.__new__(getattr(R, [TOP, ITEM][which]))
  kw = [None, {}, dict(name='einsum', capacity=4)][opts]
  if kw is None and bf: raise core.PathEnd()
  if bf: kw = dict(kw, bfloat16=bf == 2)
  want = {k: v for k, v in (kw or {}).items() if k != 'bfloat16'}
  r.dispatcher, r.num_selected_experts, r.num_experts = kw, 3, 5
  if which == 0: want['num_selected_experts'] = 3
  seen = []
  def make(g, **k): seen.append((g, k)); return ('dispatcher', g) if which == 0 else (('dispatcher', g), {'m': 2})
  moe = ns(get_top_experts_per_item_dispatcher=make, get_top_items_per_expert_dispatcher=make, Bfloat16Dispatcher=lambda d: ('bf16', d))
  r._compute_gates_softmax_and_metrics = lambda x, n: (('gates', x, n), {'auxiliary_loss': 7.})
  r._compute_gates_softmax = lambda x, n: ('gates', x, n)
  def vmap(f, **k): return lambda g: f(('group of', g))
  with use(R, jax=Over(R.jax, vmap=vmap), vmoe=ns(moe=moe)): d, m = getattr(R, [TOP, ITEM][which]).__call__(r, 'x')
  if len(seen) != 1: raise core.Unsupported('dispatchers made in another way')
  base = ('dispatcher', ('group of', ('gates', 'x', 5)))
  obligation('every group separately, with the configured options', z3.BoolVal(seen[0][1] == want))
  obligation('dispatcher of the scores', z3.BoolVal(d == (('bf16', base) if bf == 2 else base)))
  obligation('auxiliary loss', z3.BoolVal(m['auxiliary_loss'] == (7. if which == 0 else 0.)))
  obligation('configuration kept', z3.BoolVal(r.dispatcher is kw and (bf == 0 or 'bfloat16' in kw)))
