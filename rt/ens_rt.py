"""C25, C26: contracts evaluated on the real code."""
from rt import absent
absent.install()
from unittest import mock
import jax
import jax.numpy as jnp
import numpy as np
import scipy.special
from rt.base import check, raises
from vmoe.evaluate import ensemble as E
from vmoe.nn import ensemble_routing as R
from vmoe.nn import routing
from vmoe.nn import vit_moe_ensemble as V
from vmoe.projects.soft_moe import router as S


def divisors(n): return [d for d in range(1, n + 1) if n % d == 0]


@check('C25')
def layouts(run):
  for _ in range(run.n(15, 80)):
    B, M, T, H = [run.rng.randint(1, k) for k in (6, 4, 6, 3)]
    s = run.rng.choice(divisors(B * T)) * M
    x = np.arange(B * M * T * H).reshape(B * M, T, H)
    run.case('layouts', B=B, M=M, T=T, H=H, group=s)
    y = np.asarray(R.reshape_to_group_size_representation(jnp.asarray(x), s, M))
    run.expect(y.shape == (B * T * M // s, s, H), 'groups', f'{y.shape}')
    want = np.stack([x[b * M + m, t] for b in range(B) for t in range(T) for m in range(M)]).reshape(y.shape)
    run.expect(np.array_equal(y, want), 'copies-together', '')
    z = np.asarray(R.reshape_from_group_size_representation(jnp.asarray(y), T, M))
    run.expect(z.shape == x.shape and np.array_equal(z, x), 'lossless', '')


def scores(r, var, x, key):
  """The scores from which the dispatcher is made."""
  with mock.patch.object(routing.vmoe.moe, 'get_top_experts_per_item_dispatcher', side_effect=lambda g, **k: g): return r.apply(var, x, rngs=dict(gating=key))


def softmax(z):
  z = np.exp(z - z.max(-1, keepdims=True))
  return z / z.sum(-1, keepdims=True)


@check('C25')
def members(run):
  for _ in range(run.n(6, 40)):
    rng = run.rng
    G, s, M, e, H = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 4)
    det = rng.random() < .5
    K = rng.randint(1, e)
    run.case('members', groups=G, tokens=s, members=M, experts_each=e, hidden=H, deterministic=det, selected=K)
    r = R.NoisyTopExpertsPerItemEnsembleRouter(num_experts=M * e, num_selected_experts=K, ensemble_size=M, deterministic=det, noise_std=1.,
                                               dispatcher=dict(name=rng.choice(['einsum', 'indices']), capacity=s * M, batch_priority=rng.random() < .5))
    x = run.np.normal(size=(G, s * M, H)).astype(np.float32)
    if not det: x = np.repeat(x[:, ::M], M, axis=1)                # the copies of a token are equal
    keys = lambda i: dict(params=jax.random.PRNGKey(i), gating=jax.random.PRNGKey(i + 1))
    seed = rng.randrange(1000)
    var = r.init(keys(seed), x)
    W = np.asarray(var['params']['dense']['kernel'])
    run.expect(W.shape == (H, M, e), 'parameters-per-member', f'{W.shape}')
    if M > 1: run.expect(len({W[:, m].tobytes() for m in range(M)}) == M, 'own-initial-parameters', '')
    g, metrics = scores(r, var, x, jax.random.PRNGKey(seed + 2))
    g = np.asarray(g).reshape(G, s, M, M, e)
    for m in range(M):
      for o in range(M):
        if o != m: run.expect((g[:, :, m, o] == 0).all(), 'no-foreign-experts', f'member {m} has scores for experts of {o}')
      own = g[:, :, m, m]
      run.expect(np.allclose(own.sum(-1), 1, atol=1e-5), 'own-experts', '')
      if det:
        want = softmax(x.reshape(G, s, M, H)[:, :, m] @ W[:, m])
        run.expect(np.allclose(own, want, atol=1e-5), 'own-scores', f'{own} vs {want}')
    if not det and M > 1 and e > 1:
      same = {'params': {'dense': {'kernel': jnp.asarray(np.repeat(W[:, :1], M, 1))}}}
      g2, _ = scores(r, same, x, jax.random.PRNGKey(seed + 2))
      g2 = np.asarray(g2).reshape(G, s, M, M, e)
      run.expect(not np.allclose(g2[:, :, 0, 0], g2[:, :, 1, 1], atol=1e-6), 'own-noise', 'two members share their noise')
    # end to end: what the experts of one member receive and return.
    d, _ = r.apply(var, x, rngs=dict(gating=jax.random.PRNGKey(seed + 2)))
    who = jnp.asarray(np.tile(np.arange(M) + 1., (G, s)).reshape(G, s * M, 1))
    buf = np.asarray(d.dispatch(who)).reshape(M, e, -1)
    for m in range(M): run.expect(set(np.unique(buf[m])) <= {0., m + 1.}, 'experts-get-their-member-only', f'{buf[m]}')
  for bad in [dict(M=0, E=4, S=4), dict(M=-1, E=4, S=4), dict(M=3, E=4, S=6), dict(M=2, E=4, S=5)]:
    run.case('impossible', **bad)
    r = R.NoisyTopExpertsPerItemEnsembleRouter(num_experts=bad['E'], ensemble_size=bad['M'], dispatcher=dict(name='einsum', capacity=4, batch_priority=False))
    run.expect(raises(lambda: r.init(dict(params=jax.random.PRNGKey(0), gating=jax.random.PRNGKey(0)), jnp.ones((2, bad['S'], 3))), ValueError), 'impossible-sizes-rejected', '')


@check('C25')
def layer(run):
  """The whole layer: changing one member's copies never changes another member's outputs."""
  for _ in range(run.n(3, 15)):
    rng = run.rng
    B, M, T, H, e = rng.randint(1, 3), rng.randint(2, 3), rng.randint(1, 3), 4, rng.randint(1, 2)
    s = rng.choice(divisors(B * T)) * M
    run.case('layer', B=B, M=M, T=T, group=s, experts_each=e)
    l = V.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter(mlp_dim=4, num_experts=M * e, group_size=s, ensemble_size=M, deterministic=True, split_rngs=True,
                                                         router=dict(num_selected_experts=e, dispatcher=dict(name='einsum', capacity=s, batch_priority=False)))
    x = run.np.normal(size=(B * M, T, H)).astype(np.float32)
    var = l.init(jax.random.PRNGKey(0), x)
    y, _ = l.apply(var, x)
    run.expect(y.shape == x.shape, 'shape', f'{y.shape}')
    m = rng.randrange(M)
    x2 = x.copy()
    x2[m::M] = run.np.normal(size=x2[m::M].shape)
    y2, _ = l.apply(var, x2)
    for o in range(M):
      same = np.allclose(y[o::M], y2[o::M], atol=1e-6)
      run.expect(same if o != m else not same, 'members-are-independent', f'outputs of member {o} after changing member {m}')
    # equal tokens of one member get equal outputs, whatever their place.
    x3 = np.repeat(run.np.normal(size=(1, M, H)), B * T, 0).reshape(B, T, M, H).transpose(0, 2, 1, 3).reshape(B * M, T, H).astype(np.float32)
    y3 = np.asarray(l.apply(var, x3)[0]).reshape(B, M, T, H)
    for o in range(M): run.expect(np.allclose(y3[:, o], y3[0, o, 0], atol=1e-5), 'place-does-not-matter', '')
  run.case('no size')
  bad = V.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter(mlp_dim=4, num_experts=2, group_size=2)
  run.expect(raises(lambda: bad.init(jax.random.PRNGKey(0), jnp.ones((2, 2, 4))), ValueError), 'missing-size-rejected', '')


def logmean(z, M, norm):
  lp = norm(z.reshape(-1, M, z.shape[-1]))
  return scipy.special.logsumexp(lp, axis=1) - np.log(M)


@check('C25')
def losses(run):
  lsm = lambda z: z - z.max(-1, keepdims=True) - np.log(np.exp(z - z.max(-1, keepdims=True)).sum(-1, keepdims=True))
  lsg = lambda z: -np.logaddexp(0, -z)
  sizes = [(run.rng.randint(1, 5), run.rng.randint(1, 4), run.rng.randint(1, 5)) for _ in range(run.n(5, 15))] + [(3, 2, 4)]
  for _ in range(run.n(30)):
    B, M, C = run.rng.choice(sizes)
    kind = run.rng.choice(['onehot', 'soft', 'multi'])
    scale = run.rng.choice([.1, 1., 10., 150.])
    z = (run.np.normal(size=(B * M, C)) * scale).astype(np.float32)
    y = run.np.uniform(size=(B, C)).astype(np.float32) if kind == 'soft' else np.eye(C, dtype=np.float32)[run.np.integers(0, C, size=B)] if kind == 'onehot' else run.np.integers(0, 2, size=(B, C)).astype(np.float32)
    if kind == 'soft': y /= y.sum(-1, keepdims=True)
    run.case('losses', B=B, M=M, C=C, labels=kind, scale=scale)
    z64 = z.astype(np.float64)
    ok = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=1e-4)
    p, q, n = logmean(z64, M, lsm), logmean(z64, M, lsg), logmean(-z64, M, lsg)
    a = np.asarray(E.ensemble_softmax_xent_eval(z, y, M)); w = -(y * p).sum(-1)
    run.expect(ok(a, w), 'softmax-eval', f'{a} vs {w}')
    a = np.asarray(E.ensemble_sigmoid_xent_eval(z, y, M)); w = -(y * q + (1 - y) * n).sum(-1)
    run.expect(ok(a, w), 'sigmoid-eval', f'{a} vs {w}')
    ry = np.repeat(y, M, 0)
    a = np.asarray(E.ensemble_softmax_xent_train(z, y, M)); w = -(ry * lsm(z64)).sum(-1)
    run.expect(ok(a, w), 'softmax-train', f'{a} vs {w}')
    a = np.asarray(E.ensemble_sigmoid_xent_train(z, y, M)); w = -(ry * lsg(z64) + (1 - ry) * lsg(-z64)).sum(-1)
    run.expect(ok(a, w), 'sigmoid-train', f'{a} vs {w}')
    for f, lp in ((E.label_pred_ensemble_softmax, p), (E.label_pred_ensemble_sigmoid, q)):
      l = np.asarray(f(z, M))
      run.expect(l.shape == (B,) and all(lp[i, l[i]] >= lp[i].max() - 1e-4 * (1 + abs(lp[i].max())) for i in range(B)), 'most-probable-class', f'{l}')
  run.case('impossible class')
  z = np.array([[1., -np.inf], [2., -np.inf]], np.float32)
  run.expect(np.allclose(np.asarray(E.ensemble_softmax_xent_eval(z, np.array([[1., 0.]], np.float32), 2)), 0), 'impossible-classes-without-label', '')


@check('C26')
def soft(run):
  for _ in range(run.n(15, 60)):
    rng = run.rng
    G, M, D, N, P = rng.randint(1, 3), rng.randint(2, 6), rng.randint(1, 4), rng.randint(1, 3), rng.choice([None, 1, 2, 3])
    if N * (P or round(M / N)) < 1: continue
    det = rng.random() < .5
    std = rng.choice([0., 1.])
    scale = rng.choice([0., .1, 1., 100.])
    run.case('soft', groups=G, tokens=M, dim=D, experts=N, slots=P, deterministic=det, noise=std, scale=scale)
    r = S.SoftRouter(num_experts=N, num_slots=P, deterministic=det, noise_std=std, compute_similarity_metrics=rng.random() < .3)
    x = (run.np.normal(size=(G, M, D)) * scale).astype(np.float32)
    keys = dict(params=jax.random.PRNGKey(rng.randrange(100)), gating=jax.random.PRNGKey(1))
    var = {'params': r.init(keys, x)['params']}
    var['params'] = dict(var['params'], scale=jnp.asarray(rng.choice([.5, 1., 8.])))
    d, metrics = r.apply(var, x, rngs=dict(gating=jax.random.PRNGKey(2)))
    d = d.dispatcher
    cw, dw = np.asarray(d.combine_weights, np.float64), np.asarray(d.dispatch_weights, np.float64)
    slots = cw.shape[-1]
    run.expect(cw.shape == dw.shape == (G, M, N, P or slots), 'shapes', f'{cw.shape} {dw.shape}')
    if P is None: run.expect(slots == max(1, round(M / N)) or slots == round(M / N), 'slots-from-capacity', f'{slots} slots for {M} tokens, {N} experts')
    run.expect((cw >= 0).all() and (dw >= 0).all(), 'not-negative', '')
    run.expect(np.allclose(dw.sum(1), 1, atol=1e-4), 'slots-take-convex-combinations-of-tokens', f'{dw.sum(1)}')
    run.expect(np.allclose(cw.sum((2, 3)), 1, atol=1e-4), 'tokens-take-convex-combinations-of-slots', f'{cw.sum((2, 3))}')
    if det or std == 0:
      u = lambda a, ax: a / np.sqrt((a.astype(np.float64)**2).sum(ax, keepdims=True) + 1e-6)
      lo = np.einsum('gmd,dnp->gmnp', u(x, -1), u(np.asarray(var['params']['mu']), 0)) * float(var['params']['scale'])
      e1 = np.exp(lo - lo.max(1, keepdims=True)); e2 = np.exp(lo - lo.max((2, 3), keepdims=True))
      run.expect(np.allclose(dw, e1 / e1.sum(1, keepdims=True), atol=1e-3), 'dispatch-by-similarity', '')
      run.expect(np.allclose(cw, e2 / e2.sum((2, 3), keepdims=True), atol=1e-3), 'combine-by-similarity', '')
    else:
      d2 = r.apply(var, x, rngs=dict(gating=jax.random.PRNGKey(3)))[0].dispatcher
      if M * N * slots > 1 and M > 1: run.expect(not np.allclose(d2.dispatch_weights, dw), 'noise-is-drawn', '')
    if G > 1 and (det or std == 0):
      x2 = x.copy(); x2[1:] = run.np.normal(size=x2[1:].shape)
      d2 = r.apply(var, x2)[0].dispatcher
      run.expect(np.allclose(d2.dispatch_weights[0], dw[0], atol=1e-6) and np.allclose(d2.combine_weights[0], cw[0], atol=1e-6), 'groups-do-not-mix', '')
    # what experts receive / tokens get: bfloat16 precision.
    full = r.apply(var, x, rngs=dict(gating=jax.random.PRNGKey(2)))[0]
    buf = np.asarray(full.dispatch(jnp.ones((G, M, 1)))).astype(np.float64)
    run.expect(np.allclose(buf, 1, atol=3e-2), 'constant-tokens-stay-constant', f'{buf.ravel()[:4]}')
    out = np.asarray(full.combine(jnp.ones((N, G * slots, 1)))).astype(np.float64)
    run.expect(out.shape[:2] == (G, M) and np.allclose(out, 1, atol=3e-2), 'constant-outputs-stay-constant', f'{out.ravel()[:4]}')
