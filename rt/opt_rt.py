"""C16, C17 (vmoe/train/optimizer.py, schedule.py): contracts evaluated on the real code."""
import math
import re
import flax
import jax
import jax.numpy as jnp
import numpy as np
import optax
from rt.base import check, raises
from vmoe.train import optimizer as O, schedule as S

NAMES = ['Encoder', 'Head', 'kernel', 'bias', 'Moe', 'Mlp', 'a', 'b']
PATS = ['Head', 'kernel', 'head', 'mo', 'KERNEL|B', '.*bias', 'Enc.*/kernel', '^a', 'b$', 'Moe/Mlp', 'zzz', 'a|b', 'Mlp/.*']


def tree(run, frozen=None):
  rng = run.rng
  def node(depth):
    names = rng.sample(NAMES, rng.randint(1, 3))
    return {n: (node(depth - 1) if depth and rng.random() < .5 else run.np.standard_normal(rng.choice([(), (2,), (3, 2), (0, 2)])).astype(np.float32)) for n in names}
  t = node(2)
  return flax.core.freeze(t) if (rng.random() < .3 if frozen is None else frozen) else t


def typical(run):
  leaf = lambda *s: run.np.standard_normal(s).astype(np.float32)
  dense = lambda: dict(kernel=leaf(3, 2), bias=leaf(2))
  return dict(Encoder=dict(Moe=dict(Mlp=dense(), Router=dict(kernel=leaf(2, 2))), Mlp=dense(), posembed=dict(bias=leaf(2))), Head=dense(), cls=leaf(2), a=dict(b=leaf(2), scale=leaf()))


def like(run, t, scale=1.):
  """Another tree with the same leaves, with keys in another order."""
  def f(x):
    if isinstance(x, (dict, flax.core.FrozenDict)):
      ks = list(x.keys()); run.rng.shuffle(ks)
      return {k: f(x[k]) for k in ks}
    return jnp.asarray(run.np.standard_normal(np.shape(x)) * scale, jnp.float32)
  r = f(t)
  return flax.core.freeze(r) if isinstance(t, flax.core.FrozenDict) else r


def flat(t):
  return flax.traverse_util.flatten_dict(flax.core.unfreeze(t) if isinstance(t, flax.core.FrozenDict) else t, sep='/')


def first(rules, key, default):
  for p, v in rules:
    if re.search(p, key): return v
  return default


@check('C16')
def rules_per_leaf(run):
  for _ in range(run.n(150)):
    t = tree(run); g = like(run, t)
    rules = [(run.rng.choice(PATS), run.rng.choice([0.5, 2., -1., 0., 0.1])) for _ in range(run.rng.randint(1, 4))]
    if run.rng.random() < .5: rules = tuple(rules)
    run.case('rules_per_leaf', params=dict(flat(t)), updates=dict(flat(g)), rules=rules)
    op = O.add_decayed_weights(rules)
    u, _ = op.update(g, op.init(t), t)
    run.expect(jax.tree_util.tree_structure(u) == jax.tree_util.tree_structure(g), 'structure-of-updates')
    fu, fg, ft = flat(u), flat(g), flat(t)
    for k in fg:
      w = np.asarray(fg[k]) + np.float32(first(rules, k, 0.)) * np.asarray(ft[k])
      run.expect(np.allclose(fu[k], w, rtol=1e-5, atol=1e-6), 'decay-of-the-same-parameter-by-first-match', f'{k}: {fu[k]} vs {w}')
    wd = run.rng.choice([0.3, 1, 2.])
    op = O.add_decayed_weights(wd)
    fu = flat(op.update(g, op.init(t), t)[0])
    for k in fg: run.expect(np.allclose(fu[k], np.asarray(fg[k]) + np.float32(wd) * np.asarray(ft[k]), rtol=1e-5, atol=1e-6), 'uniform-decay', k)
    run.expect(raises(lambda: op.update(g, op.init(t), None), ValueError), 'missing-params-rejected')
    op = O.gradient_scaling(rules)
    fu = flat(op.update(g, op.init(t))[0])
    for k in fg:
      w = np.asarray(fg[k]) * np.float32(first(rules, k, 1.))
      run.expect(np.allclose(fu[k], w, rtol=1e-6, atol=0), 'scale-by-first-match', f'{k}: {fu[k]} vs {w}')


@check('C16')
def frozen_never_change(run):
  opts = [('sgd', {}), ('sgd', dict(momentum=0.9)), ('sgd', dict(momentum=0.9, nesterov=True)), ('adam', {}), ('big_vision_adafactor', {})]
  clips = [None, dict(global_norm=0.5), dict(absolute_value=0.1)]
  for n in range(run.n(24)):
    t = jax.tree_util.tree_map(jnp.asarray, tree(run, frozen=False) if n % 2 else typical(run))
    name, kw = opts[n % len(opts)]
    clip = run.rng.choice(clips)
    pats = run.rng.sample(PATS, run.rng.randint(1, 3))
    if n % 5 == 4: pats = [f'nothing{i}' for i in range(run.rng.randint(5, 40))] + pats
    arg = run.rng.choice([pats[0], list(pats), tuple(pats)])
    use = [arg] if isinstance(arg, str) else list(arg)
    mode = run.rng.choice(['frozen_pattern', 'trainable_pattern'])
    hit = lambda k: any(re.search(p, k) for p in use) == (mode == 'frozen_pattern')
    wd = run.rng.choice([None, 0.1, [('kernel', 0.3), ('.*', 0.01)]])
    nan = run.rng.random() < .3 and clip is None
    run.case('frozen_never_change', name=name, kw=kw, clip=clip, mode=mode, pattern=arg, decay=wd, nan=nan, params=dict(flat(t)))
    mk = lambda **k: O.create_optimizer(name=name, total_steps=10, learning_rate=0.25, gradient_clip=clip, weight_decay=wd, **k, **kw)
    a, b = mk(**{mode: arg}), mk()
    pa = pb = t
    sa, sb = a.init(t), b.init(t)
    for _ in range(3):
      g = like(run, t)
      if nan: g = flax.traverse_util.unflatten_dict({k: (jnp.full_like(v, jnp.nan) if hit(k) else v) for k, v in flat(g).items()}, sep='/')
      # Gradients are functions of the step only, so other parameters must follow the same trajectory.
      ua, sa = a.update(g, sa, pa); pa = optax.apply_updates(pa, ua)
      ub, sb = b.update(g, sb, pb); pb = optax.apply_updates(pb, ub)
    f0, fa, fb = flat(t), flat(pa), flat(pb)
    for k in f0:
      if hit(k): run.expect(np.array_equal(fa[k], f0[k]), 'frozen-parameter-unchanged', f'{k}: {f0[k]} -> {fa[k]}')
      else: run.expect(np.array_equal(fa[k], fb[k]), 'other-parameters-unaffected-by-freezing', f'{k}: {fa[k]} vs {fb[k]}')


def clip_ref(clip, gs):
  if not clip: return gs
  if 'absolute_value' in clip: return {k: np.clip(v, -clip['absolute_value'], clip['absolute_value']) for k, v in gs.items()}
  n = math.sqrt(sum(float(np.sum(np.square(v, dtype=np.float64))) for v in gs.values()))
  return gs if n < clip['global_norm'] else {k: v * clip['global_norm'] / n for k, v in gs.items()}


@check('C16')
def order_of_steps(run):
  """scale, clip, optimizer, decay, -lr, freeze: against a reference in float64."""
  clips = [None, dict(global_norm=0.5), dict(absolute_value=0.1)]
  for n in range(run.n(30)):
    t = jax.tree_util.tree_map(jnp.asarray, tree(run, frozen=False))
    mom = run.rng.choice([None, 0.9])
    clip = clips[n % 3]
    sc = run.rng.choice([None, [('kernel', 8.), ('.*', .5)], [('bias', 0.)]])
    wd = run.rng.choice([None, 0.3, [('Head', .5), ('b', .2)]])
    lr = run.rng.choice([0.5, 1, dict(schedule='warmup_linear_decay', peak_value=1., end_value=0., warmup_steps=2)])
    fz = run.rng.choice([None, 'a', ['bias', 'Moe']])
    run.case('order_of_steps', momentum=mom, clip=clip, scale=sc, decay=wd, lr=lr, frozen=fz, params=dict(flat(t)))
    op = O.create_optimizer(name='sgd', total_steps=6, learning_rate=lr, gradient_clip=clip, weight_decay=wd, frozen_pattern=fz, gradient_scale=sc,
                            **({} if mom is None else dict(momentum=mom)))
    s, p = op.init(t), t
    ref = {k: np.asarray(v, np.float64) for k, v in flat(t).items()}
    tr = {k: np.zeros_like(v) for k, v in ref.items()}
    rate = (lambda i: lr) if isinstance(lr, (int, float)) else (lambda i: i / 2 if i < 2 else 1 - (i - 2) / 4)
    for i in range(4):
      g = like(run, t)
      u, s = op.update(g, s, p); p = optax.apply_updates(p, u)
      gs = {k: np.asarray(v, np.float64) * (first(sc, k, 1.) if sc else 1.) for k, v in flat(g).items()}
      gs = clip_ref(clip, gs)
      for k in ref:
        x = gs[k]
        if mom: tr[k] = x + mom * tr[k]; x = tr[k]
        f = 0. if not wd else wd if isinstance(wd, float) else first(wd, k, 0.)
        x = -rate(i) * (x + f * ref[k])
        frozen = fz and any(re.search(q, k) for q in ([fz] if isinstance(fz, str) else fz))
        if not frozen: ref[k] = ref[k] + x
      fp = flat(p)
      for k in ref: run.expect(np.allclose(fp[k], ref[k], rtol=2e-4, atol=2e-5), 'scale-clip-optimizer-decay-rate-freeze', f'step {i} {k}: {fp[k]} vs {ref[k]}')


@check('C16')
def rejections(run):
  run.case('rejections')
  mk = lambda **k: O.create_optimizer(**{**dict(name='sgd', total_steps=3, learning_rate=.1), **k})
  run.expect(raises(lambda: mk(frozen_pattern='a', trainable_pattern='b'), ValueError), 'both-patterns-rejected')
  run.expect(raises(lambda: mk(gradient_clip=dict(global_norm=1., absolute_value=1.)), ValueError), 'both-clippings-rejected')
  run.expect(raises(lambda: mk(name='lamb'), ValueError), 'unknown-optimizer-rejected')


def poly(t, W, D, peak, end, power):
  if t < W: return peak * t / W
  return (peak - end) * (1 - (t - W) / (D - W)) ** power + end


def cosine(t, W, D, peak, end):
  if t < W: return peak * t / W
  return (peak - end) * .5 * (1 + math.cos(math.pi * (t - W) / (D - W))) + end


def rsqrt(t, W, D, C, ts, peak):
  if t < W: return peak * t / W
  if t <= D - C: return peak / math.sqrt(1 + (t - W) / ts)
  return peak / math.sqrt(1 + (D - W - C) / ts) * (D - t) / C


@check('C17')
def schedules(run):
  for n in range(run.n(120)):
    rng = run.rng
    D = rng.choice([1, 2, 3, 7, 20, 101, 1000])
    W = rng.randint(0, D - 1)
    total = D if rng.random() < .5 else rng.choice([D + 5, max(D - 1, 1), 4 * D])
    peak = rng.choice([1e-3, 1., 0.3, 7.])
    end = rng.choice([0., peak, peak / 10, 1e-5 * peak])
    kind = n % 4
    if kind == 0: name, kw, ref = 'warmup_linear_decay', dict(end_value=end), lambda t: poly(t, W, D, peak, end, 1.)
    elif kind == 1:
      pw = rng.choice([1., 2., .5, 3.])
      name, kw, ref = 'warmup_polynomial_decay', dict(end_value=end, power=pw), lambda t: poly(t, W, D, peak, end, pw)
    elif kind == 2: name, kw, ref = 'warmup_cosine_decay', dict(end_value=end), lambda t: cosine(t, W, D, peak, end)
    else:
      C = rng.choice([0, 0, (D - W) // 2, D - W])
      ts = rng.choice([1, 10, 1000])
      name, kw, ref = 'big_vision_rsqrt', dict(cooldown_steps=C, timescale=ts), lambda t: rsqrt(t, W, D, C, ts, peak)
    kw = dict(kw, peak_value=peak, warmup_steps=W)
    if total != D: kw['decay_steps'] = D
    run.case('schedules', schedule=name, total_steps=total, **kw)
    f = S.create_learning_rate_schedule(schedule=name, total_steps=total, **kw)
    steps = sorted({t for t in [0, 1, W - 1, W, W + 1, D - 1, D, D // 2, D - kw.get('cooldown_steps', 0) - 1, D - kw.get('cooldown_steps', 0), D - kw.get('cooldown_steps', 0) + 1,
                                rng.randint(0, D), rng.randint(0, D)] if 0 <= t <= D})
    prev = None
    for t in steps:
      for arg in (t, jnp.asarray(t, jnp.int32)):
        v = float(f(arg))
        run.expect(abs(v - ref(t)) <= 1e-5 * peak, 'value-of-schedule', f'step {t}: {v} vs {ref(t)}')
        run.expect(-1e-6 * peak <= v <= peak * (1 + 1e-6), 'between-zero-and-peak', f'step {t}: {v}')
      if t > W and prev is not None and prev[0] >= W: run.expect(v <= prev[1] + 1e-6 * peak, 'not-increasing-after-warmup', f'{prev} -> {(t, v)}')
      prev = (t, v)
    if kw.get('power', 1.) < 1.: continue   # XLA's rounding of 1 - count / steps under jit (see DESIGN.md)
    jv = jax.jit(f)(jnp.asarray(D))
    run.expect(abs(float(jv) - ref(D)) <= 1e-5 * peak, 'end-value', f'{jv} vs {ref(D)}')


@check('C17')
def rejected(run):
  run.case('rejected')
  mk = lambda **k: S.create_learning_rate_schedule(**{**dict(schedule='big_vision_rsqrt', total_steps=10, peak_value=1., timescale=2), **k})
  run.expect(raises(lambda: mk(warmup_steps=6, cooldown_steps=5), ValueError), 'phases-must-fit')
  run.expect(raises(lambda: mk(timescale=-1), ValueError), 'negative-timescale-rejected')
  run.expect(raises(lambda: S.create_learning_rate_schedule(schedule='x', total_steps=1), ValueError), 'unknown-schedule-rejected')
  run.expect(float(S.create_learning_rate_schedule(schedule='constant', total_steps=3, value=.25)(2)) == .25, 'constant')
