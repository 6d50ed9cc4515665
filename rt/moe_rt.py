"""Run-time contracts for vmoe/moe.py: 'C01', 'C02', 'C03', 'C04', 'C05', 'C06'."""
import fractions
import functools
import itertools
import math
import os

import numpy as np
import jax
import jax.numpy as jnp

from rt.base import check, raises
from vmoe import moe


def gate_arrays(run, S, E, n):
  """Gate scores: generic, with many ties, negative, all equal, adversarial."""
  g = run.np
  yield 'normal', g.normal(size=(S, E)).astype(np.float32)
  yield 'ties', g.integers(0, 3, size=(S, E)).astype(np.float32)
  yield 'negative', -np.abs(g.normal(size=(S, E))).astype(np.float32)
  yield 'one-expert', (np.tile(np.arange(E, 0, -1, dtype=np.float32), (S, 1)) + g.normal(size=(S, 1)).astype(np.float32))
  yield 'zeros', np.zeros((S, E), np.float32)
  for _ in range(n):
    x = g.normal(size=(S, E)).astype(np.float32)
    e = np.exp(x - x.max(-1, keepdims=True))
    yield 'softmax', (e / e.sum(-1, keepdims=True)).astype(np.float32)


SHAPES = [(1, 1, 1, 1), (3, 1, 1, 2), (4, 2, 1, 1), (5, 3, 2, 2), (6, 4, 4, 1), (7, 3, 3, 20), (8, 5, 2, 3), (16, 4, 1, 5), (9, 2, 2, 4), (12, 6, 3, 4)]


def tokenchoice(run, S, E, K, C):
  for name in ('einsum', 'indices'):
    for bp in (False, True):
      fn = jax.jit(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K,
                                     batch_priority=bp, capacity=C))
      for kind, gates in gate_arrays(run, S, E, run.n(2, 10)):
        run.case('token-choice', dispatcher=name, batch_priority=bp, K=K, C=C, kind=kind, gates=gates)
        d = fn(gates)
        yield name, bp, gates, dense_assignment(run, d, name, S, E, C, K)


def dense_assignment(run, d, name, S, E, C, K):
  """(S, E, C) dispatch 0/1 matrix and combine weights of a dispatcher."""
  if name == 'einsum':
    dw = np.asarray(d.dispatch_weights).astype(np.int64)
    cw = np.asarray(d.combine_weights)
    return dw, cw
  idx, w = np.asarray(d.indices), np.asarray(d.combine_weights)
  dw = np.zeros((S, E, C), np.int64); cw = np.zeros((S, E, C), np.float32)
  for s in range(S):
    for k in range(K):
      e, c = idx[s, k]
      run.expect(0 <= e < E and c >= 0, 'indices-in-range', f'index {(e, c)} of token {s} choice {k}')
      if c < C:
        dw[s, e, c] += 1; cw[s, e, c] += w[s, k]
  return dw, cw


def pick(run):
  shapes = list(SHAPES)
  for _ in range(run.n(3, 40)):
    E = run.rng.randint(1, 9); K = run.rng.randint(1, E)
    shapes.append((run.rng.randint(1, 24), E, K, run.rng.randint(1, 12)))
  # more tokens per expert than small integer or float types can count.
  return shapes + [(300, 2, 1, 290)]


@check('C01')
def token_choice_slots(run):
  for S, E, K, C in pick(run):
    for name, bp, gates, (dw, cw) in tokenchoice(run, S, E, K, C):
      run.expect(dw.sum(0).max(initial=0) <= 1, 'slot-receives-at-most-one-token', f'occupancy {dw.sum(0).tolist()}')
      per = dw.sum(2)                                   # (S, E)
      run.expect(per.max(initial=0) <= 1, 'token-occupies-one-slot-per-expert')
      run.expect((per.sum(1) <= K).all(), 'at-most-K-experts')
      for s in range(S):
        sel = np.nonzero(per[s])[0]
        kth = np.sort(gates[s])[::-1][K - 1]
        run.expect((gates[s][sel] >= kth).all(), 'assigned-expert-among-top-K', f'token {s}: {sel} scores {gates[s]}')
        top = np.nonzero(gates[s] > kth)[0]
        for e in top:
          run.expect(per[s, e] == 1 or dw[:, e].sum() == C, 'selected-unless-expert-full', f'token {s} expert {e}')
      # nobody is dropped while some selected expert still has room.
      missing = K - per.sum(1)
      for s in np.nonzero(missing)[0]:
        kth = np.sort(gates[s])[::-1][K - 1]
        room = [e for e in range(E) if gates[s, e] >= kth and per[s, e] == 0 and dw[:, e].sum() < C]
        eligible = [e for e in range(E) if gates[s, e] >= kth]
        # with ties the code may pick any K eligible experts.
        run.expect(len(eligible) > K or not room, 'dropped-only-when-full', f'token {s}, experts with room {room}')
      run.expect(np.array_equal(cw, np.where(dw > 0, gates[:, :, None], np.float32(0))), 'combine-weight-is-own-gate')


@check('C02')
def token_choice_priority(run):
  for S, E, K, C in pick(run):
    for name in ('einsum', 'indices'):
      for bp in (False, True):
        fn = jax.jit(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K,
                                       batch_priority=bp, capacity=C))
        for rep in range(run.n(3, 12)):
          gates = distinct_gates(run, S, E, skew=rep)
          run.case('priority', dispatcher=name, batch_priority=bp, K=K, C=C, gates=gates)
          dw, _ = dense_assignment(run, fn(gates), name, S, E, C, K)
          order = np.argsort(-gates.max(1), kind='stable') if bp else np.arange(S)
          ranks = np.argsort(-gates, axis=1, kind='stable')[:, :K]
          used = np.zeros(E, int)
          exp = np.zeros((S, E, C), np.int64)
          for k in range(K):
            for s in order:
              e = ranks[s, k]
              if used[e] < C: exp[s, e, used[e]] = 1
              used[e] += 1
          run.expect(np.array_equal(dw, exp), 'slot-is-number-of-higher-priority-assignments',
                     f'token/expert/slot got {np.argwhere(dw).tolist()} expected {np.argwhere(exp).tolist()}')


def distinct_gates(run, S, E, skew):
  base = run.np.permutation(S * E).reshape(S, E).astype(np.float32) / (S * E)
  if skew % 3 == 1: base = base + np.arange(E, dtype=np.float32) * 2       # everybody prefers the same experts
  if skew % 3 == 2: base = -base * 1000
  return base


@check('C02')
def priority_with_ties(run):
  """With equal scores any tie-break is allowed, but never against the priority order."""
  for S, E, K, C in pick(run)[:6]:
    for bp in (False, True):
      fn = jax.jit(functools.partial(moe.get_top_experts_per_item_dispatcher, name='indices', num_selected_experts=K,
                                     batch_priority=bp, capacity=C))
      for rep in range(run.n(3, 12)):
        gates = run.np.integers(0, 4, size=(S, E)).astype(np.float32)
        run.case('priority-ties', batch_priority=bp, K=K, C=C, gates=gates)
        idx = np.asarray(fn(gates).indices)
        score = gates.max(1)
        items = [(k, s, *idx[s, k]) for s in range(S) for k in range(K)]
        for (k, s, e, c) in items:
          for (k2, s2, e2, c2) in items:
            if e != e2: continue
            higher = k < k2 or (k == k2 and ((score[s] > score[s2]) if bp else (s < s2)))
            if higher:
              run.expect(c < c2, 'higher-priority-gets-earlier-slot', f'(token {s}, choice {k}) vs (token {s2}, choice {k2}): slots {c}, {c2}')


@check('C03')
def dispatchers_agree(run):
  rng = run.np
  for G, S, E, K, C, item in [(1, 4, 2, 1, 2, (3,)), (2, 5, 3, 2, 2, (2,)), (4, 6, 2, 2, 3, (2, 2)), (3, 3, 3, 3, 9, ()), (6, 8, 3, 2, 1, (4,))] + [
      (run.rng.randint(1, 4), run.rng.randint(1, 9), E, run.rng.randint(1, E), run.rng.randint(1, 6), ((2,), (3, 2), ())[run.rng.randint(0, 2)])
      for E in [run.rng.randint(1, 6) for _ in range(run.n(4, 30))]]:
    for bp in (False, True):
      def build(gates, x, y, name):
        d = jax.vmap(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K,
                                       batch_priority=bp, capacity=C))(gates)
        return d.dispatch(x), d.combine(y)
      f1, f2 = (jax.jit(functools.partial(build, name=n)) for n in ('einsum', 'indices'))
      for rep in range(run.n(3, 8)):
        gates = rng.normal(size=(G, S, E)).astype(np.float32) if rep % 2 else rng.integers(-1, 3, size=(G, S, E)).astype(np.float32)
        # small integers: every product and sum is exact.
        x = rng.integers(-8, 9, size=(G, S, *item)).astype(np.float32)
        y = rng.integers(-8, 9, size=(E, G * C, *item)).astype(np.float32)
        if rep % 2: gates = np.round(gates * 8) / 8
        run.case('dispatchers', G=G, S=S, E=E, K=K, C=C, batch_priority=bp, gates=gates, x=x, y=y)
        (a1, b1), (a2, b2) = f1(gates, x, y), f2(gates, x, y)
        run.expect(np.array_equal(a1, a2), 'dispatch-equal', 'dispatched buffers differ')
        run.expect(a1.shape == (E, G * C, *item), 'dispatch-shape', str(a1.shape))
        run.expect(np.allclose(b1, b2, rtol=1e-5, atol=1e-5), 'combine-equal', f'max diff {np.abs(np.asarray(b1) - np.asarray(b2)).max(initial=0)}')


@check('C03')
def bfloat16_wrapper(run):
  for dtype in (jnp.float32, jnp.int32, jnp.float16, jnp.bfloat16):
    G, S, E, K, C, D = 2, 4, 2, 1, 4, 3
    gates = np.array(run.np.normal(size=(G, S, E)), np.float32)
    x = np.array(run.np.integers(-8, 8, size=(G, S, D))).astype(dtype)
    if dtype == jnp.int32: x = x * 1001 + 1          # not representable in bfloat16
    run.case('bfloat16', dtype=str(dtype), gates=gates, x=x)
    d = jax.vmap(functools.partial(moe.get_top_experts_per_item_dispatcher, name='einsum', num_selected_experts=K, batch_priority=False, capacity=C))(gates)
    b = moe.Bfloat16Dispatcher(d)
    out = b.dispatch(x)
    run.expect(out.dtype == dtype, 'wrapper-keeps-dtype', str(out.dtype))
    run.expect(np.array_equal(np.asarray(out, np.float64), np.asarray(d.dispatch(x), np.float64)), 'wrapper-dispatches-the-same')
    ft = jnp.float32 if dtype == jnp.int32 else dtype
    y = jnp.asarray(run.np.integers(-8, 8, size=(E, G * C, D))).astype(ft)
    run.expect(np.allclose(np.asarray(b.combine(y), np.float32), np.asarray(d.combine(y), np.float32), rtol=3e-2, atol=5e-2), 'wrapper-combines-the-same')
    run.expect(b.combine(y).dtype == ft, 'wrapper-keeps-dtype', str(b.combine(y).dtype))


# -- C04 -------------------------------------------------------------------------
def mesh_specs():
  n = len(jax.devices())
  return [None] if n == 1 else [None, ('expert', 'replica')]


@check('C04')
def layout(run):
  combos = [(1, 1, 1, ()), (2, 2, 1, (2,)), (4, 2, 3, ()), (6, 3, 2, (2,)), (6, 2, 2, (1, 3)), (3, 2, 2, (2,)), (2, 3, 1, ()), (5, 5, 2, ()), (8, 2, 1, (2,)), (1, 4, 2, ()), (12, 3, 2, ())]
  combos += [(run.rng.randint(1, 12), run.rng.randint(1, 6), run.rng.randint(1, 4), ((), (2,), (2, 3))[run.rng.randint(0, 2)]) for _ in range(run.n(8, 60))]
  for G, E, C, item in combos:
    # one-hot dispatch: token s of group g goes to (e, c) with s = e * C + c: every buffer cell is a distinct token.
    S = E * C
    run.case('layout', G=G, E=E, C=C, item=item)
    dw = np.zeros((G, S, E, C), bool)
    perm = np.stack([run.np.permutation(S) for _ in range(G)])
    for g in range(G):
      for s in range(S):
        e, c = divmod(int(perm[g, s]), C)
        dw[g, s, e, c] = True
    cw = dw.astype(np.float32)
    x = np.arange(1, G * S * math.prod(item) + 1, dtype=np.float32).reshape(G, S, *item)
    idx = np.stack(np.divmod(perm, C), -1)[:, :, None, :].astype(np.int32)
    ds = [moe.EinsumDispatcher(combine_weights=jnp.asarray(cw)),
          moe.EinsumDispatcher(combine_weights=jnp.asarray(cw * 2), dispatch_weights=jnp.asarray(dw)),
          moe.ExpertIndicesDispatcher(indices=jnp.asarray(idx), combine_weights=jnp.ones((G, S, 1)), num_experts=E, capacity=C)]
    for j, d in enumerate(ds):
      out = np.asarray(d.dispatch(jnp.asarray(x)))
      run.expect(out.shape == (E, G * C, *item), 'dispatch-shape', str(out.shape))
      for e in range(E):
        want = sorted(x[g, s].ravel().tolist() for g in range(G) for s in range(S) if perm[g, s] // C == e)
        run.expect(sorted(r.ravel().tolist() for r in out[e]) == want, 'expert-receives-exactly-its-buffers', f'dispatcher {j} expert {e}')
      # tag every cell with expert-specific function: value * (e + 1).
      scale = np.arange(1, E + 1, dtype=np.float32).reshape((E,) + (1,) * (out.ndim - 1))
      back = np.asarray(d.combine(jnp.asarray(out * scale)))
      eidx = (perm // C + 1).reshape((G, S) + (1,) * len(item)).astype(np.float32)
      run.expect(np.allclose(back, x * eidx * (2 if j == 1 else 1), rtol=1e-6), 'output-returns-to-its-group-and-slot', f'dispatcher {j}')
      # other trailing shape at combine.
      y = np.arange(1, E * G * C * 2 + 1, dtype=np.float32).reshape(E, G * C, 2)
      r = np.asarray(d.combine(jnp.asarray(y)))
      pos = {float(v): p for p, v in enumerate(out.reshape(E * G * C, -1)[:, 0])}
      for g in range(G):
        for s in range(S):
          p = pos[float(x[g, s].ravel()[0])]
          run.expect(np.allclose(r[g, s], y.reshape(-1, 2)[p] * (2 if j == 1 else 1)), 'combine-reads-the-cell-dispatch-wrote')


@check('C04')
def dense_and_identity(run):
  for G, S, E, item in [(1, 1, 1, ()), (2, 3, 2, (2,)), (4, 2, 2, (1, 2)), (3, 4, 2, ()), (6, 2, 3, (2,))]:
    gates = np.round(run.np.normal(size=(G, S, E)) * 8).astype(np.float32)
    x = run.np.integers(-5, 6, size=(G, S, *item)).astype(np.float32)
    run.case('dense', G=G, S=S, E=E, item=item, gates=gates, x=x)
    d = moe.get_dense_einsum_dispatcher(jnp.asarray(gates))
    buf = np.asarray(d.dispatch(jnp.asarray(x)))
    run.expect(buf.shape == (E, G * S, *item), 'dispatch-shape', str(buf.shape))
    for e in range(E):
      run.expect(sorted(map(str, buf[e].reshape(G * S, -1).tolist())) == sorted(map(str, x.reshape(G * S, -1).tolist())), 'every-expert-gets-every-item')
    scale = np.arange(1, E + 1, dtype=np.float32)
    back = np.asarray(d.combine(jnp.asarray(buf * scale.reshape((E,) + (1,) * (buf.ndim - 1)))))
    want = x * (gates * scale).sum(-1).reshape((G, S) + (1,) * len(item))
    run.expect(np.allclose(back, want), 'dense-combine-weighted-sum', f'{back} vs {want}')
    C, K = run.rng.randint(1, S), run.rng.randint(1, E)
    for name in ('einsum', 'indices'):
      dd = jax.vmap(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K, batch_priority=False, capacity=C))(gates)
      out = np.asarray(dd.combine(dd.dispatch(jnp.asarray(x))))
      w = np.stack([dense_assignment(run, jax.tree_util.tree_map(lambda a: a[g], dd), name, S, E, C, K)[1].sum((1, 2)) for g in range(G)])
      run.expect(np.allclose(out, x * w.reshape((G, S) + (1,) * len(item))), 'identity-experts', name)
      # groups are independent.
      if G > 1:
        g2, x2 = gates.copy(), x.copy()
        g2[1:] = run.np.normal(size=g2[1:].shape); x2[1:] = 7
        dd2 = jax.vmap(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K, batch_priority=False, capacity=C))(g2)
        out2 = np.asarray(dd2.combine(dd2.dispatch(jnp.asarray(x2))))
        run.expect(np.allclose(out2[0], out[0]), 'group-results-depend-only-on-own-group', name)


@check('C04')
def sparse_moe_layer(run):
  """sparse_moe_spmd: expert e of the lifted layer applies its own parameters to the cells addressed to it."""
  import flax.linen as nn

  class Expert(nn.Module):
    out: int
    @nn.compact
    def __call__(self, x):
      k = self.param('k', nn.initializers.normal(1.0), (x.shape[-1], self.out))
      b = self.param('b', nn.initializers.normal(1.0), (self.out,))
      return x @ k + b

  for G, S, E, K, C, name in [(2, 3, 2, 1, 2, 'einsum'), (4, 3, 2, 2, 3, 'indices'), (3, 4, 2, 1, 4, 'einsum')]:
    gates = run.np.normal(size=(G, S, E)).astype(np.float32)
    x = run.np.normal(size=(G, S, 2)).astype(np.float32)
    run.case('layer', G=G, S=S, E=E, K=K, C=C, name=name, gates=gates, x=x)
    d = jax.vmap(functools.partial(moe.get_top_experts_per_item_dispatcher, name=name, num_selected_experts=K, batch_priority=False, capacity=C))(gates)
    layer = moe.sparse_moe_spmd(Expert, variable_axes={'params': 0}, split_rngs={'params': True})(out=3)
    v = layer.init(jax.random.PRNGKey(0), d, x)
    out = np.asarray(layer.apply(v, d, x))
    k, b = np.asarray(v['params']['k']), np.asarray(v['params']['b'])
    run.expect(k.shape == (E, 2, 3), 'experts-have-own-parameters', str(k.shape))
    run.expect(E == 1 or not np.allclose(k[0], k[1]), 'experts-initialised-differently')
    exp = np.zeros_like(out)
    for g in range(G):
      _, cw = dense_assignment(run, jax.tree_util.tree_map(lambda a: a[g], d), name, S, E, C, K)
      w = cw.sum(2)
      for s in range(S):
        for e in range(E):
          if w[s, e]: exp[g, s] += w[s, e] * (x[g, s] @ k[e] + b[e])
    run.expect(np.allclose(out, exp, rtol=1e-4, atol=1e-4), 'layer-is-weighted-sum-of-selected-experts')


# -- C05 -------------------------------------------------------------------------
@check('C05')
def expert_choice(run):
  shapes = [(1, 1, 1), (4, 2, 4), (5, 3, 2), (8, 1, 3), (6, 5, 1), (9, 8, 4), (3, 300, 3)]
  shapes += [(S, run.rng.randint(1, 9), run.rng.randint(1, S)) for S in [run.rng.randint(1, 20) for _ in range(run.n(4, 40))]]
  for S, E, C in shapes:
    fn = jax.jit(functools.partial(moe.get_top_items_per_expert_dispatcher, name='einsum', capacity=C))
    for kind, gates in gate_arrays(run, S, E, run.n(2, 8)):
      run.case('expert-choice', S=S, E=E, C=C, kind=kind, gates=gates)
      d, m = fn(gates)
      dw, cw = np.asarray(d.dispatch_weights).astype(int), np.asarray(d.combine_weights)
      run.expect(dw.shape == (S, E, C) and (dw.sum(0) == 1).all(), 'every-slot-holds-one-token', str(dw.sum(0).tolist()))
      run.expect(dw.sum(2).max(initial=0) <= 1, 'tokens-distinct-within-expert')
      for e in range(E):
        sel = dw[:, e].sum(1) == 1
        run.expect(gates[~sel, e].max(initial=-np.inf) <= gates[sel, e].min(), 'selected-have-highest-scores', f'expert {e}')
      run.expect(np.array_equal(cw, np.where(dw > 0, gates[:, :, None], np.float32(0))), 'combine-weight-is-own-gate')
      n = dw.sum((1, 2))
      sel = gates[dw.sum(2) > 0]
      run.expect(int(m['num_experts_per_item_min']) == n.min() and int(m['num_experts_per_item_max']) == n.max(), 'metric-experts-per-token',
                 f'{m} vs {n.min()}, {n.max()}')
      run.expect(np.float32(m['min_selected_gate']) == sel.min() and np.float32(m['max_selected_gate']) == sel.max(), 'metric-selected-gates')
      for t in range(1, E + 1):
        key = f'ratio_processed_items_by_at_least_{t}_experts'
        if key in m:
          run.expect(abs(float(m[key]) - (n >= t).mean()) < 1e-6, 'metric-ratio', key)
      x = run.np.integers(-4, 5, size=(1, S, 2)).astype(np.float32)
      dg = jax.tree_util.tree_map(lambda a: a[None], d)
      out = np.asarray(dg.combine(dg.dispatch(jnp.asarray(x))))
      want = x[0] * (cw.sum((1, 2)))[:, None]
      room = 1e-4 + 1e-4 * np.abs(x[0]) * np.abs(cw).sum((1, 2))[:, None]      # of the summed terms: they may cancel
      run.expect(bool(np.all(np.abs(out[0] - want) <= room)), 'identity-experts', f'max diff {np.abs(out[0] - want).max(initial=0)}')


# -- C06 -------------------------------------------------------------------------
def spec_capacity(n, e, f, mode, mult):
  load = n * f / e                                   # the same float expression as the documented formula
  avg = math.ceil(load) if mode == 'ceil' else round(load)
  return avg, load


@check('C06')
def capacity(run):
  vals = [(n, e, f, mode, mult) for n in (1, 2, 3, 7, 8, 64, 100, 4097) for e in (1, 2, 3, 8, 33) for f in (0.01, 0.25, 0.5, 1.0, 1.05, 1.5, 2, 10.0)
          for mode in ('ceil', 'round') for mult in (None, 0, 1, 2, 3, 4, 5, 8)]
  for _ in range(run.n(2000, 20000)):
    vals.append((run.rng.randint(1, 10000), run.rng.randint(1, 300), run.rng.choice([run.rng.uniform(0.001, 4), run.rng.randint(1, 16) / 4]),
                 run.rng.choice(['ceil', 'round']), run.rng.choice([None, 0, 1, 2, 3, 4, 7, 8, 16])))
  for n, e, f, mode, mult in vals:
    run.case('capacity', num_tokens=n, num_experts=e, capacity_factor=f, ceil_or_round=mode, multiple_of=mult)
    x = fractions.Fraction(n) * fractions.Fraction(f) / e
    avg_exact = math.ceil(x) if mode == 'ceil' else round(x)
    avg, load = spec_capacity(n, e, f, mode, mult)
    ok = {avg, avg_exact}              # floating-point evaluation of the same formula may differ by an ulp
    # other association orders of the same product.
    for l2 in (n / e * f, f / e * n, n * (f / e)):
      ok.add(math.ceil(l2) if mode == 'ceil' else round(l2))
    try:
      c = moe.compute_capacity(n, e, f, mode, mult)
    except ValueError:
      run.expect(min(ok) < 1, 'rejects-only-zero-load', f'average load {load}')
      continue
    run.expect(max(ok) >= 1, 'zero-load-is-rejected', f'{c} for load {load}')
    run.expect(c >= 1 and int(c) == c, 'positive-integer', repr(c))
    m = mult or 1
    run.expect(c % m == 0, 'multiple-of-alignment', repr(c))
    run.expect(any(c == -(-a // m) * m for a in ok if a >= 1), 'smallest-multiple-not-below-load', f'{c}, average load {load}')
  for bad in ('floor', '', None):
    run.case('capacity-mode', mode=bad)
    run.expect(raises(lambda: moe.compute_capacity(8, 2, 1.0, bad), ValueError), 'unknown-rounding-rejected')


@check('C06')
def router_capacity(run):
  for S, E, K in [(8, 4, 1), (8, 4, 2), (12, 3, 3), (5, 2, 1), (16, 8, 4), (9, 4, 3)]:
    gates = jnp.asarray(run.np.normal(size=(S, E)).astype(np.float32))
    for f in (0.5, 1.0, 1.3, 2.0):
      for mode in ('ceil', 'round'):
        for mult in (None, 1, 4):
          run.case('router-capacity', S=S, E=E, K=K, f=f, mode=mode, multiple_of=mult)
          want = moe.compute_capacity(S * K, E, f, mode, mult)
          d1 = moe.get_top_experts_per_item_dispatcher(gates, 'einsum', K, False, capacity_factor=f, capacity_ceil_or_round=mode, capacity_multiple_of=mult)
          d2 = moe.get_top_experts_per_item_dispatcher(gates, 'indices', K, True, capacity_factor=f, capacity_ceil_or_round=mode, capacity_multiple_of=mult)
          run.expect(d1.dispatch_weights.shape == (S, E, want), 'token-choice-capacity-scales-with-K', f'{d1.dispatch_weights.shape} want {want}')
          run.expect(d2.capacity == want and d2.num_experts == E, 'token-choice-capacity-scales-with-K', f'{d2.capacity} want {want}')
          want = moe.compute_capacity(S, E, f, mode, mult)
          if want <= S:
            d3, _ = moe.get_top_items_per_expert_dispatcher(gates, 'einsum', capacity_factor=f, capacity_ceil_or_round=mode, capacity_multiple_of=mult)
            run.expect(d3.dispatch_weights.shape == (S, E, want), 'expert-choice-capacity-not-scaled', f'{d3.dispatch_weights.shape} want {want}')
    for c in (1, 3, 5):
      run.case('explicit-capacity', S=S, E=E, K=K, c=c)
      run.expect(moe.get_top_experts_per_item_dispatcher(gates, 'einsum', K, False, capacity=c).dispatch_weights.shape == (S, E, c), 'explicit-capacity-kept')
      run.expect(moe.get_top_experts_per_item_dispatcher(gates, 'indices', K, False, capacity=c).capacity == c, 'explicit-capacity-kept')
      if c <= S:
        run.expect(moe.get_top_items_per_expert_dispatcher(gates, 'einsum', capacity=c)[0].dispatch_weights.shape == (S, E, c), 'explicit-capacity-kept')
    run.case('both-or-none', S=S, E=E, K=K)
    for kw in (dict(), dict(capacity=2, capacity_factor=1.0)):
      for f in (lambda: moe.get_top_experts_per_item_dispatcher(gates, 'einsum', K, False, **kw),
                lambda: moe.get_top_experts_per_item_dispatcher(gates, 'indices', K, False, **kw),
                lambda: moe.get_top_items_per_expert_dispatcher(gates, 'einsum', **kw)):
        run.expect(raises(f, ValueError), 'exactly-one-of-capacity-and-factor')
    run.expect(raises(lambda: moe.get_top_experts_per_item_dispatcher(gates, 'nope', K, False, capacity=2), ValueError), 'unknown-dispatcher-rejected')
