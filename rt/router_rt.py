"""C31: contracts of the routers evaluated on the real code."""
from rt import absent
absent.install()
from unittest import mock
import jax
import jax.numpy as jnp
import numpy as np
import scipy.stats
from rt.base import check, raises
import vmoe.moe
from vmoe.nn import routing as R


def softmax(z):
  z = np.exp(z - z.max(-1, keepdims=True))
  return z / z.sum(-1, keepdims=True)


def cv2(x): return (x.std(-1) / x.mean(-1)) ** 2


def gates_of(cls, r, var, x, key):
  """The scores from which the dispatchers are made, with the options they are made with."""
  seen = []
  if cls == 0: name, f = 'get_top_experts_per_item_dispatcher', lambda g, **k: (seen.append(k), g)[1]
  else: name, f = 'get_top_items_per_expert_dispatcher', lambda g, **k: (seen.append(k), (g, {}))[1]
  with mock.patch.object(vmoe.moe, name, side_effect=f), mock.patch.object(vmoe.moe, 'Bfloat16Dispatcher', side_effect=lambda d: d):
    g, m = r.apply(var, x, rngs=dict(gating=key))
  return np.asarray(g, np.float64), m, seen


@check('C31')
def scores(run):
  sizes = [(run.rng.randint(1, 4), run.rng.randint(1, 6), run.rng.randint(1, 4), run.rng.randint(2, 6)) for _ in range(run.n(2, 20))] + [(2, 5, 3, 4)]
  for i in range(run.n(24, 120)):
    rng = run.rng
    cls = int(i % 4 == 3)
    G, S, D, E = rng.choice(sizes + [sizes[-1]]) if i not in (1, 3, 5) else ((1, 7, 3, 80), (2, 70, 3, 20))[i == 5]
    det, std = rng.random() < .25, rng.choice([0., 1., 1., .3, 4.])
    K = rng.randint(1, E)
    w = [rng.choice([0., 0., .5, 2.]) for _ in range(3)]
    run.case('scores', router=cls, groups=G, tokens=S, dim=D, experts=E, deterministic=det, std=std, selected=K, weights=w)
    disp = dict(name='einsum', capacity=rng.randint(1, S), **(dict(batch_priority=rng.random() < .5) if cls == 0 else {}))
    if rng.random() < .3: disp['bfloat16'] = True
    common = dict(num_experts=E, noise_std=std, deterministic=det, dispatcher=dict(disp))
    if cls == 0: r = R.NoisyTopExpertsPerItemRouter(num_selected_experts=K, gshard_loss_weight=w[0], importance_loss_weight=w[1], load_loss_weight=w[2], **common)
    else: r = R.NoisyTopItemsPerExpertRouter(**common)
    x = (run.np.normal(size=(G, S, D)) * rng.choice([.1, 1, 5])).astype(np.float32)
    key = jax.random.PRNGKey(rng.randrange(1000))
    seed = rng.randrange(1000)
    var = r.init(dict(params=jax.random.PRNGKey(seed), gating=key), x)
    var = jax.tree_util.tree_map(lambda v: v + .2 * run.np.normal(size=v.shape).astype(v.dtype), var)
    Wk = np.asarray(var['params']['dense']['kernel'], np.float64)
    draws = []
    real = jax.random.normal
    def normal(*a, **k):
      out = real(*a, **k); draws.append(np.asarray(out, np.float64)); return out
    with mock.patch.object(jax.random, 'normal', side_effect=normal): g, m, seen = gates_of(cls, r, var, x, key)
    logits = np.einsum('gsd,de->gse', x.astype(np.float64), Wk)
    noisy = not det and std != 0
    run.expect(bool(draws) == noisy, 'noise-only-if-asked', f'{len(draws)} draws')
    if noisy and len(draws) != 1: raise RuntimeError('noise drawn in another way')
    if bool(draws) != noisy: continue
    full = logits + draws[0].reshape(logits.shape) * std / E if noisy else logits
    tol = dict(rtol=2e-3, atol=1e-5)
    run.expect(g.shape == (G, S, E) and np.allclose(g, softmax(full), **tol), 'softmax-of-logits', f'{np.abs(g - softmax(full)).max()}' if g.shape == (G, S, E) else f'{g.shape}')
    want = {k: v for k, v in disp.items() if k != 'bfloat16'} | (dict(num_selected_experts=K) if cls == 0 else {})
    run.expect(all(k == want for k in seen), 'configured-options', f'{seen} {want}')
    run.expect(dict(r.dispatcher) == disp, 'configuration-kept', '')
    if noisy:
      other, _, _ = gates_of(cls, r, var, x, jax.random.PRNGKey(12345))
      run.expect(not np.allclose(other, g, atol=1e-9) or E == 1, 'noise-depends-on-key', '')
    else:
      other, _, _ = gates_of(cls, r, var, x, jax.random.PRNGKey(12345))
      run.expect(np.array_equal(other, g), 'deterministic', '')
    if G > 1:                                   # groups do not influence each other
      y = x.copy(); y[1:] += 1
      o, mo, _ = gates_of(cls, r, var, y, key)
      run.expect(np.allclose(o[0], g[0], **tol), 'groups-independent', '')
    if cls == 1:
      run.expect(np.all(np.asarray(m['auxiliary_loss']) == 0), 'no-auxiliary-loss', f'{m}'); continue
    imp = cv2(softmax(logits).sum(1))
    top = g.argmax(-1)
    frac = np.stack([(top == e).mean(1) for e in range(E)], -1)
    gsh = E * (frac * g.mean(1)).sum(-1)
    losses = [gsh, imp]
    run.expect(np.shape(m['importance_loss']) == (G,) and np.allclose(m['importance_loss'], imp, rtol=1e-2, atol=1e-4), 'importance', f"{m['importance_loss']} {imp}")
    run.expect(np.shape(m['gshard_loss']) == (G,) and np.allclose(m['gshard_loss'], gsh, rtol=1e-2, atol=1e-4), 'gshard', f"{m['gshard_loss']} {gsh}")
    if noisy:
      kth = -np.sort(-full, -1)[..., K - 1]
      p = 1 - scipy.stats.norm.cdf((kth[..., None] - logits) / (std / E))
      ld = cv2(p.mean(1))
      losses.append(ld)
      run.expect(np.allclose(m['load_loss'], ld, rtol=2e-2, atol=2e-3), 'load', f"{m['load_loss']} {ld}")
    total = sum(a * b for a, b in zip(w, losses) if a > 0)
    run.expect(np.allclose(m['auxiliary_loss'], total, rtol=2e-2, atol=5e-3), 'auxiliary-loss', f"{m['auxiliary_loss']} {total}")


@check('C31')
def rejected(run):
  for E in range(1, 4):
    for K in range(-1, 6):
      run.case('rejected', experts=E, selected=K)
      r = R.NoisyTopExpertsPerItemRouter(num_experts=E, num_selected_experts=K, deterministic=True, dispatcher=dict(name='einsum', capacity=2, batch_priority=False))
      f = lambda: r.init(dict(params=jax.random.PRNGKey(0)), np.ones((1, 4, 2), np.float32))
      bad = raises(f, ValueError)
      run.expect(bool(bad) == (not 1 <= K <= E), 'impossible-selection-rejected', f'{E} {K}')


@check('C31')
def unweighted(run):
  """Losses that are off contribute nothing, even when they are not numbers."""
  for w in ([0., 1.], [1., 0.], [0., 0.], [2., 3.]):
    run.case('unweighted', weights=w)
    x = [np.nan if a == 0 else 1.5 for a in w]
    r = R._weighted_sum(*zip(w, x))
    run.expect(r == 1.5 * sum(w), 'weight-zero-is-off', f'{r}')


@check('C31')
def dispatched(run):
  """The dispatcher used is the configured one, applied group by group."""
  for _ in range(run.n(3, 20)):
    rng = run.rng
    G, S, D, E = rng.randint(1, 3), rng.randint(2, 6), 3, rng.randint(2, 4)
    K = rng.randint(1, E)
    cls, name, bf = rng.randrange(2), rng.choice(['einsum', 'indices']), rng.random() < .5
    run.case('dispatched', router=cls, groups=G, tokens=S, experts=E, selected=K, name=name, bfloat16=bf)
    opts = dict(name=name, capacity=rng.randint(1, S), **(dict(bfloat16=True) if bf else {}))
    if cls == 1: opts['name'] = 'einsum'
    else: opts['batch_priority'] = rng.random() < .5
    r = (R.NoisyTopExpertsPerItemRouter(num_experts=E, num_selected_experts=K, deterministic=True, dispatcher=opts) if cls == 0
         else R.NoisyTopItemsPerExpertRouter(num_experts=E, deterministic=True, dispatcher=opts))
    x = run.np.normal(size=(G, S, D)).astype(np.float32)
    var = r.init(dict(params=jax.random.PRNGKey(1)), x)
    g, _, _ = gates_of(cls, r, var, x, jax.random.PRNGKey(0))
    d, _ = r.apply(var, x)
    run.expect(isinstance(d, vmoe.moe.Bfloat16Dispatcher) == bf, 'bfloat16-only-if-asked', f'{type(d)}')
    o = {k: v for k, v in opts.items() if k != 'bfloat16'}
    data = jnp.asarray(run.np.integers(-8, 8, size=(G, S, 2)), jnp.float32)
    if bf: d = d.dispatcher
    a = np.asarray(d.combine(d.dispatch(data)), np.float32)
    for i in range(G):
      gi = jnp.asarray(g[i:i + 1], jnp.float32)
      ref = jax.vmap(lambda z: vmoe.moe.get_top_experts_per_item_dispatcher(z, num_selected_experts=K, **o) if cls == 0 else vmoe.moe.get_top_items_per_expert_dispatcher(z, **o)[0])(gi)
      b = ref.combine(ref.dispatch(data[i:i + 1]))
      run.expect(np.allclose(a[i:i + 1], np.asarray(b, np.float32), rtol=1e-2, atol=1e-2), 'dispatcher-per-group', f'group {i}')
