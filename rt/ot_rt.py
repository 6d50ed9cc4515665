"""C38: optimal-transport routers evaluated on the real code."""
from unittest import mock
import jax
import jax.numpy as jnp
import numpy as np
from rt.base import check, raises
from rt.router_rt import softmax, cv2
import vmoe.moe
from vmoe.projects.sparsity_constrained_ot import kl_projection_routing as KL, ksparse_projection_routing as KS, ot_routing as OT, sparse_projection_routing as SP

ROUTERS = [SP.SparseProjectionTransportTopItemsPerExpertRouter, KS.KSparseProjectionTransportTopExpertsPerItemRouter, KS.KSparseProjectionTransportTopItemsPerExpertRouter,
           KL.KLProjectionNoisyTopExpertsPerItemRouter, KL.KLProjectionNoisyTopItemsPerExpertRouter]


@check('C38')
def replaced(run):
  for _ in range(run.n(20)):
    G, S, E, C = [run.rng.randint(1, 4) for _ in range(4)]
    dw = run.np.random((G, S, E, C)) < .4
    cw = np.where(dw, run.np.random((G, S, E, C)), 0).astype(np.float32)
    gates = run.np.normal(size=(G, S, E)).astype(np.float32)
    none = run.rng.random() < .5
    run.case('combine-weights', shape=dw.shape, dispatch_weights=not none, gates=gates)
    r = OT._replace_combine_weights(vmoe.moe.EinsumDispatcher(combine_weights=cw, dispatch_weights=None if none else dw), gates)
    run.expect(np.array_equal(np.asarray(r.dispatch_weights), dw), 'same-cells')
    run.expect(np.array_equal(np.asarray(r.combine_weights), np.where(dw, gates[..., None], np.float32(0))), 'given-scores-on-used-cells')
    run.expect(raises(lambda: OT._replace_combine_weights(vmoe.moe.ExpertIndicesDispatcher(indices=np.zeros((1, 1, 1, 2), np.int32), combine_weights=np.zeros((1, 1, 1)), num_experts=2, capacity=2), gates), TypeError), 'dense-only')


def scored(r, var, x, token_choice, key=None):
  """The plan by which, and the scores by which, the router dispatches and combines."""
  got = {}
  name = '_create_dispatcher' if token_choice else '_create_dispatcher_and_metrics'
  f = getattr(OT, 'BaseOTNoisyTop' + ('ExpertsPerItem' if token_choice else 'ItemsPerExpert') + 'Router').__dict__[name]
  def spy(self, gates_dispatch, gates_combine=None):
    got.update(plan=gates_dispatch, scores=gates_combine)
    return f(self, gates_dispatch, gates_combine)
  cls = type(r)
  with mock.patch.object(cls, name, spy): r.apply(var, x, rngs=dict(gating=key) if key is not None else None)
  return got['plan'], got['scores']


@check('C38')
def routing(run):
  for it in range(run.n(10)):
    rng = run.rng
    k = it % 5
    G, S, D, E = rng.randint(1, 3), rng.choice([1, 2, 4, 6, 9, 12]), rng.randint(1, 4), rng.randint(2, 5)
    soft, bf = rng.random() < .6, rng.random() < .2
    det, std = rng.random() < .4, rng.choice([0., 1., 2.])
    K = rng.randint(1, E)
    # up to all buffers the experts of a group can fill
    f, mult = rng.choice([.5, 1., 1.5]), rng.choice([1, 2])
    C = vmoe.moe.compute_capacity(S * (K if k in (1, 3) else 1), E, f, multiple_of=mult) if round(S * f / E + .49999) else 1
    if k in (0, 2, 4) and C > S: f, mult, C = 1., 1, -(-S // E)
    disp = dict(name='einsum', capacity_factor=f, capacity_multiple_of=mult, **(dict(batch_priority=False) if k in (1, 3) else {}), **(dict(bfloat16=True) if bf else {}))
    iters = rng.choice([1, 2, 6])
    wi, wl = rng.choice([0., .5]), rng.choice([0., 2.])
    kw = dict(num_experts=E, dispatcher=dict(disp), use_softmax_combine_weights=soft, maxiter=iters)
    if k in (1, 3): kw['num_selected_experts'] = K
    if k >= 3: kw.update(deterministic=det, noise_std=std)
    if k == 3: kw.update(importance_loss_weight=wi, load_loss_weight=wl)
    run.case('ot-routing', router=ROUTERS[k].__name__, groups=G, tokens=S, dim=D, weights=(wi, wl), **{a: b for a, b in kw.items()})
    r = ROUTERS[k](**kw)
    x = (run.np.normal(size=(G, S, D)) * rng.choice([.3, 1, 3])).astype(np.float32)
    key = jax.random.PRNGKey(rng.randrange(1000))
    var = r.init(dict(params=jax.random.PRNGKey(rng.randrange(1000)), gating=key), x)
    var = jax.tree_util.tree_map(lambda v: v + .2 * run.np.normal(size=v.shape).astype(np.float32), var)
    W = np.asarray(var['params']['dense']['kernel'], np.float64)
    draws = []
    rnormal = jax.random.normal
    def normal(*a, **q):
      o = rnormal(*a, **q); draws.append(np.asarray(o, np.float64)); return o
    with mock.patch.object(jax.random, 'normal', normal):
      d, m = r.apply(var, x, rngs=dict(gating=key))
    plan, scores = scored(r, var, x, k in (1, 3), key) if k < 3 or det or std == 0 else (None, None)
    run.expect(isinstance(d, vmoe.moe.Bfloat16Dispatcher) == bf, 'bfloat16-only-if-asked')
    d = d.dispatcher if bf else d
    dw, cw = np.asarray(d.dispatch_weights if d.dispatch_weights is not None else d.combine_weights > 0), np.asarray(d.combine_weights, np.float64)
    logits = np.einsum('gsd,de->gse', x.astype(np.float64), W)
    noisy = k >= 3 and not det and std != 0
    run.expect(bool(draws) == noisy, 'noise-only-if-asked', f'{len(draws)}')
    run.expect(dw.shape == (G, S, E, C), 'capacity-as-configured', f'{dw.shape}, capacity {C}')
    run.expect(dw.astype(int).sum(1).max() <= 1, 'a-buffer-holds-one-token')
    if soft:
      opts = [softmax(logits)] + ([softmax(logits + draws[0] * std / E)] if noisy else [])
      if noisy and k == 4: opts = opts[1:]
      run.expect(any(np.allclose(cw, np.where(dw, o[..., None], 0), rtol=2e-3, atol=1e-5) for o in opts), 'combined-by-the-softmax-scores')
    if plan is not None:
      plan = np.asarray(plan, np.float64)
      if soft: run.expect(np.allclose(np.asarray(scores, np.float64), softmax(logits), rtol=2e-3, atol=1e-6), 'scores-are-the-softmax')
      run.expect(plan.shape == (G, S, E) and np.isfinite(plan).all() and plan.min() >= -1e-6, 'plan-is-not-negative', f'{plan.min()}')
      if k == 1: run.expect((np.count_nonzero(plan, axis=2) <= K).all() and np.allclose(plan.sum(2), 1, atol=1e-3), 'plan-sends-every-token-to-at-most-k-experts', f'{plan.sum(2)}')
      if k == 2: run.expect((np.count_nonzero(plan, axis=1) <= C).all() and np.allclose(plan.sum(1), S / E, rtol=1e-3), 'plan-gives-every-expert-its-share', f'{plan.sum(1)}')
      if not soft: run.expect(np.allclose(cw[dw], np.broadcast_to(plan[..., None], cw.shape)[dw], rtol=1e-3, atol=1e-5), 'combined-by-the-plan')
      for g in range(G):          # the tokens of every expert are those to which its plan gives most
        for e in range(E):
          if k in (0, 2, 4):
            sel = dw[g, :, e].any(-1)
            run.expect(sel.sum() == C and (sel.all() or plan[g, sel, e].min() >= plan[g, ~sel, e].max() - 1e-6), 'experts-choose-by-the-plan')
        if k in (1, 3):
          for s in range(S):
            sel = dw[g, s].any(-1)
            run.expect(sel.sum() <= K and np.all(plan[g, s][sel] >= np.sort(plan[g, s])[::-1][K - 1] - 1e-6), 'tokens-choose-by-the-plan')
      if G > 1:
        one = r.apply(var, x[:1])[0]
        one = one.dispatcher if bf else one
        run.expect(np.allclose(np.asarray(one.combine_weights, np.float64), cw[:1], rtol=1e-4, atol=1e-5), 'groups-on-their-own')
    if k < 3 or k == 4: run.expect(float(np.max(np.abs(np.asarray(m['auxiliary_loss'])))) == 0, 'no-auxiliary-loss')
    elif wl == 0 or not noisy:
      want = wi * cv2(softmax(logits).sum(1))
      run.expect(np.allclose(np.asarray(m['auxiliary_loss'], np.float64), want, rtol=1e-2, atol=1e-3), 'auxiliary-loss', f'{m["auxiliary_loss"]} {want}')
    if k in (1, 3):
      bad = dict(kw, num_selected_experts=run.rng.choice([0, E + 1]))
      run.expect(raises(lambda: ROUTERS[k](**bad).apply(var, x, rngs=dict(gating=key)), ValueError), 'impossible-selection-rejected')
    run.expect(raises(lambda: r.apply(var, x[0], rngs=dict(gating=key)), ValueError), 'three-axes-needed')


@check('C38')
def marginals(run):
  """With many iterations the plans meet both marginals."""
  for it in range(run.n(3)):
    k = [3, 4, 3][it % 3]
    S, E = run.rng.choice([(4, 2), (6, 3), (9, 4), (5, 3)])
    kw = dict(num_experts=E, maxiter=300, deterministic=True, dispatcher=dict(name='einsum', capacity=1))
    if k == 3: kw['dispatcher']['batch_priority'] = False; kw.update(num_selected_experts=1, use_lbfgs=run.rng.random() < .5)
    x = run.np.normal(size=(2, S, 3)).astype(np.float32)
    run.case('marginals', router=ROUTERS[k].__name__, tokens=S, experts=E, x=x)
    r = ROUTERS[k](**kw)
    var = r.init(dict(params=jax.random.PRNGKey(0)), x)
    plan = np.asarray(scored(r, var, x, k == 3)[0])
    run.expect(np.allclose(plan.sum(2), 1, atol=2e-2), 'every-token-sent-once', f'{plan.sum(2)}')
    run.expect(np.allclose(plan.sum(1), S / E, rtol=2e-2), 'experts-share-the-tokens', f'{plan.sum(1)}')
    l = np.einsum('gsd,de->gse', x, np.asarray(var['params']['dense']['kernel']))
    y = np.log(plan) - l                  # the plan is exp(logits + u[token] + v[expert])
    y = y - y.mean(1, keepdims=True); y = y - y.mean(2, keepdims=True)
    run.expect(np.abs(y).max() < 5e-2, 'entropic-plan-of-the-logits', f'{np.abs(y).max()}')
