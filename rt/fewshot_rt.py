"""C34 (vmoe/evaluate/fewshot.py): contracts evaluated on the real code."""
import inspect
from unittest import mock
import jax
import jax.numpy as jnp
import numpy as np
from rt.base import check, raises
from vmoe.evaluate import fewshot as FS


def the_mesh():
  return jax.sharding.Mesh(np.asarray(jax.devices()).reshape(-1, 1), ('a', 'b'))


def ridge(x, y, xt, C, l2):
  """Scores of the documented classifier, in float64, from the normal equations."""
  x, xt = x.astype(np.float64), xt.astype(np.float64)
  mean, std = x.mean(0, keepdims=True), x.std(0, keepdims=True) + 1e-5
  pad = lambda a: np.concatenate([(a - mean) / std, np.full((len(a), 1), FS.BIAS_CONSTANT)], 1)
  a, t = pad(x), 2. * np.eye(C)[y] - 1.
  return pad(xt) @ np.linalg.solve(a.T @ a + l2 * np.eye(a.shape[1]), a.T @ t)


def clear(scores, gap):
  """Test points whose best class wins by a clear margin."""
  s = np.sort(scores, 1)
  return (s[:, -1] - s[:, -2]) > gap if scores.shape[1] > 1 else np.ones(len(scores), bool)


def train_set(run, C, D, n):
  y = np.concatenate([np.arange(min(C, n)), run.np.integers(0, C, size=max(n - C, 0))]).astype(np.int32)
  cen = run.np.normal(size=(C, D)) * 2
  return (cen[y] + run.np.normal(size=(len(y), D))).astype(np.float32), y, cen


@check('C34')
def regression(run):
  for it in range(run.n(40, 400)):
    C, D = run.rng.randint(2, 6), run.rng.choice([1, 2, 3, 5, 8, 16])
    n = run.rng.choice([C, C + 1, D, D + 1, D + 2, 2 * D + C, 30]) if it % 3 else run.rng.choice([D, D + 1, D + 2])
    n = max(n, 2)
    x, y, cen = train_set(run, C, D, n)
    xt = np.concatenate([(cen[run.np.integers(0, C, size=120)] + 2 * run.np.normal(size=(120, D))).astype(np.float32), x])
    l2 = run.rng.choice([.05, .5, 1., 4., 30., 300., 1e4])
    sc = ridge(x, y, xt, C, l2)
    keep = clear(sc, max(.02 * np.abs(sc).max(), .01))
    run.case('regression', classes=C, features=D, examples=n, l2=l2, test=int(keep.sum()))
    if keep.sum() < 4: continue
    xt, want = xt[keep], np.argmax(sc[keep], 1)
    yt = np.where(run.np.uniform(size=len(want)) < .6, want, run.np.integers(0, C, size=len(want))).astype(np.int32)
    cache = FS._precompute_cache(x, y, C)
    for lab in (yt, want.astype(np.int32)):
      acc = float(FS._eig_fewshot_acc_fn(cache, xt, lab, l2))
      run.expect(abs(acc - float((lab == want).mean())) < 1.5e-2, 'accuracy-of-the-documented-classifier', f'{acc} want {(lab == want).mean()}')


class Rep:
  """A representation step: features are the images; batches may contain padding."""
  def __init__(self): self.rngs = []
  def __call__(self, state, variables, images, labels, mask):
    self.rngs.append(state)
    return state + 1, jnp.asarray(images), jnp.asarray(labels), jnp.asarray(mask)


def batches(run, x, y, bs):
  """Batches with finite padding scattered among the examples."""
  n = len(x)
  total = -(-n // bs) * bs + bs * run.rng.randint(0, 1)
  pos = np.sort(run.np.choice(total, size=n, replace=False))
  img = np.full((total, x.shape[1]), 7e3, np.float32); lab = run.np.integers(0, 2, size=total).astype(y.dtype); val = np.zeros(total, bool)
  img[pos], lab[pos], val[pos] = x, y, True
  val = val.astype(run.rng.choice(['bool', 'float32', 'int32']))
  return [{'image': img[i:i + bs], 'label': lab[i:i + bs], FS.VALID_KEY: val[i:i + bs]} for i in range(0, total, bs)]


@check('C34')
def representation(run):
  for _ in range(run.n(40, 300)):
    n, D = run.rng.randint(1, 30), run.rng.choice([1, 3])
    x = run.np.normal(size=(n, D)).astype(np.float32); y = run.np.integers(0, 5, size=n).astype(np.int32)
    bs = run.rng.choice([1, 2, 4, 8])
    bt = batches(run, x, y, bs)
    run.case('representation', n=n, batch=bs, batches=len(bt))
    rep = Rep()
    st, f, l = FS._compute_representation(rep, 0, None, iter(bt))
    run.expect(np.array_equal(f, x) and np.array_equal(l, y), 'valid-examples-once-in-order', f'{np.asarray(l)} want {y}')
    run.expect(st == len(bt) and rep.rngs == list(range(len(bt))), 'state-threaded-through-batches', f'{rep.rngs}')


def bind(f, a, k):
  """Arguments of a call by parameter position, however they were passed."""
  return list(inspect.signature(inspect.unwrap(f)).bind(*a, **k).arguments.values())


@check('C34')
def chosen_shots(run):
  """Which training examples are used, observed through the features given to the regression."""
  real = FS._precompute_cache
  for _ in range(run.n(30, 200)):
    C = run.rng.randint(1, 6)
    n = run.rng.randint(C, 40)
    y = run.np.integers(0, C, size=n).astype(np.int32) if run.rng.random() < .5 else (np.arange(n) % max(C - 1, 1)).astype(np.int32)
    x = np.stack([np.arange(n), run.np.normal(size=n), run.np.normal(size=n)], 1).astype(np.float32)
    xt = run.np.normal(size=(9, 3)).astype(np.float32); yt = run.np.integers(0, C, size=9).astype(np.int32)
    shots = run.rng.sample([1, 2, 3, 5, 10, 50], run.rng.randint(1, 3))
    l2s = run.rng.sample([.1, 1., 10., 1000.], run.rng.randint(1, 3))
    seed = run.rng.randrange(2**31)
    run.case('shots', labels=y.tolist(), shots=shots, seed=seed, l2=l2s)
    uses = []
    def rec(*a, **k):
      x_, y_, c_ = bind(real, a, k)[:3]
      uses.append((np.asarray(x_), np.asarray(y_), c_))
      return real(*a, **k)
    def go(sd):
      bt, bt2 = batches(run, x, y, 8), batches(run, xt, yt, 4)
      return FS._compute_fewshot_metrics(Rep(), shots, l2s, C, 0, None, iter(bt), iter(bt2), sd)
    with mock.patch.object(FS, '_precompute_cache', rec): res = go(seed)
    first = list(uses); uses.clear()
    run.expect(set(res) == {(s, l) for s in shots for l in l2s}, 'one-result-per-shot-and-l2', f'{set(res)}')
    if len(first) != len(shots): continue   # fitted elsewhere: the accuracies are judged by the other cases
    for s, (a, b, k) in zip(shots, first):
      ids = a[:, 0].round().astype(int)
      run.expect(k == C and len(set(ids.tolist())) == len(ids), 'distinct-examples', f'{ids}')
      run.expect(np.array_equal(b, y[ids]) and np.array_equal(a, x[ids]), 'examples-keep-their-labels', f'{b} want {y[ids]}')
      got = {c: int((b == c).sum()) for c in range(C)}
      want = {c: min(s, int((y == c).sum())) for c in range(C)}
      run.expect(got == want, 'shot-examples-per-class', f'{s} shots: {got} want {want}')
      for l in l2s:
        sc = ridge(x[ids], y[ids], xt, C, l)
        if len(ids) > 1 and clear(sc, .05 * max(np.abs(sc).max(), .2)).all() and np.abs(x[ids].std(0)).min() > 1e-3:
          run.expect(abs(float(res[s, l]) - (np.argmax(sc, 1) == yt).mean()) < 2e-2, 'accuracy-on-the-test-set', f'{s} {l}: {res[s, l]}')
    with mock.patch.object(FS, '_precompute_cache', rec): res2 = go(seed)
    run.expect(all(np.array_equal(p[0], q[0]) for p, q in zip(first, uses)) and all(float(res[k]) == float(res2[k]) for k in res), 'same-seed-same-examples')
  # different seeds choose differently.
  n = 60
  y = np.zeros(n, np.int32); x = np.stack([np.arange(n)] * 2, 1).astype(np.float32)
  seen = set()
  for seed in range(6):
    got = []
    with mock.patch.object(FS, '_precompute_cache', lambda *a, **k: got.append(tuple(np.asarray(bind(real, a, k)[0])[:, 0].astype(int))) or real(*a, **k)):
      FS._compute_fewshot_metrics(Rep(), [5], [1.], 1, 0, None, iter(batches(run, x, y, 8)), iter(batches(run, x, y, 8)), seed)
    if not got: return
    seen.add(got[0])
  run.case('seeds', chosen=sorted(seen))
  run.expect(len(seen) >= 5, 'seed-decides-the-examples', f'{seen}')


@check('C34')
def best_l2(run):
  for _ in range(run.n(300, 2000)):
    shots = run.rng.sample([1, 5, 10], run.rng.randint(1, 3))
    l2s = run.rng.sample([.1, 1., 4., 10., 100., 1000.], run.rng.randint(1, 5))
    sets = [f'd{i}' for i in range(run.rng.randint(1, 4))]
    res = {d: {(s, l): a for s in shots for l, a in zip(l2s, run.np.permutation(len(l2s)) / 7. + run.rng.random() * .01)} for d in sets}
    run.case('best_l2', results=res)
    best = FS._find_best_l2_reg(res, shots, l2s)
    run.expect(set(best) == set(shots), 'one-per-shot')
    for s in shots:
      rank = {l: sum(sorted(res[d][s, q] for q in l2s).index(res[d][s, l]) for d in sets) for l in l2s}
      run.expect(best[s] in rank and rank[best[s]] == max(rank.values()), 'best-mean-rank', f'shot {s}: {best[s]} of {rank}')


class DS:
  """A resettable iterator over batches."""
  def __init__(self, bt, log, name): self.bt, self.log, self.name, self.i = bt, log, name, 0
  def __iter__(self): return self
  def __next__(self):
    if self.i >= len(self.bt): raise StopIteration
    self.i += 1
    return self.bt[self.i - 1]
  def reset(self): self.log.append(self.name); self.i = 0


@check('C34')
def reported(run):
  for it in range(run.n(6, 30)):
    sets, data = {}, {}
    C, D = run.rng.randint(2, 4), run.rng.choice([2, 3])
    shots, l2s = run.rng.sample([1, 2, 4], 2), run.rng.sample([.5, 4., 50., 2e3], 3)
    resets = []
    for name in run.rng.sample(['birds', 'cars', 'pets'], run.rng.randint(1, 3)):
      x, y, cen = train_set(run, C, D, 24)
      yt = run.np.integers(0, C, size=40).astype(np.int32)
      xt = (cen[yt] + 1.5 * run.np.normal(size=(40, D))).astype(np.float32)
      sets[name] = (DS(batches(run, x, y, 8), resets, name + '/tr'), DS(batches(run, xt, yt, 8), resets, name + '/te'), C)
    seeds = run.rng.choice([1, 1, 2, 3])
    fold = run.rng.random() < .5
    main = (run.rng.choice(sorted(sets)), run.rng.choice(shots)) if run.rng.random() < .7 else None
    pre = run.rng.choice([None, 2])
    run.case('reported', datasets=sorted(sets), shots=shots, l2=l2s, seeds=seeds, fold_in_step=fold, main=main, prefetch=pre)
    writer = mock.MagicMock()
    results, keys = [], []
    real = FS._compute_fewshot_metrics
    def rec(*a, **k):
      r = real(*a, **k); results.append(r)
      keys.append(np.asarray(bind(real, a, k)[4].rngs['dropout']).tobytes())
      return r
    ap = lambda v, im, rngs=None: (im * v['params'], {})
    with the_mesh(), mock.patch.object(FS, '_get_datasets', lambda d, **k: sets), mock.patch.object(FS, '_compute_fewshot_metrics', rec):
      act = FS.FewShotPeriodicAction(shots=shots, l2_regs=l2s, metric_writer=writer, datasets={}, apply_fn=ap, rng_keys=['dropout', 'noise'], seed=3, seed_fold_in_step=fold,
                                     seeds_per_step=seeds, main_task=main, every_steps=2, prefetch_to_device=pre)
      for step in (1, 2, 3, 4):
        act(step=step, variables=dict(params=jnp.float32(1.)), extra=11, none=None)
    calls = [c.args for c in writer.write_scalars.call_args_list]
    run.expect([c[0] for c in calls] == [2, 4], 'evaluated-at-its-steps', f'{[c[0] for c in calls]}')
    per = len(sets) * seeds
    run.expect(len(results) == 2 * per, 'every-dataset-and-seed', f'{len(results)}')
    run.expect(sorted(resets) == sorted([n + s for n in sets for s in ('/tr', '/te')] * seeds * 2), 'iterators-reset', f'{resets}')
    for q, (step, d) in enumerate(calls):
      rs = results[q * per:(q + 1) * per]
      names = [n if seeds == 1 else f'{n}-seed-{s}' for s in range(seeds) for n in sets]
      for s in shots:
        b = d[f'fewshot/{s}shot_best_l2']
        rank = {l: sum(sum(float(r[s, q]) < float(r[s, l]) for q in l2s) + .5 * sum(float(r[s, q]) == float(r[s, l]) for q in l2s) for r in rs) for l in l2s}
        run.expect(b in l2s, 'best-l2-is-one-of-them')
        if all(len({float(r[s, q]) for q in l2s}) == len(l2s) for r in rs): run.expect(rank[b] == max(rank.values()), 'best-mean-rank', f'{b} {rank}')
        for n, r in zip(names, rs): run.expect(float(d[f'fewshot/{n}/{s}shot']) == float(r[s, b]), 'reported-accuracy', f'{n} {s}')
      if main:
        n, s = main
        b = d[f'fewshot/{s}shot_best_l2']
        vals = [float(r[s, b]) for m_, r in zip(names, rs) if m_ == n or m_.startswith(n + '-seed-')]
        run.expect(abs(float(d[f'0/{n}/{s}shot']) - sum(vals) / len(vals)) < 1e-6, 'main-task', f"{d[f'0/{n}/{s}shot']} of {vals}")
      run.expect(d.get('extra') == 11 and 'none' not in d, 'other-values-passed-on')
    by_seed = [{keys[q * per + s * len(sets) + i] for i in range(len(sets))} for q in range(2) for s in range(seeds)]
    run.expect(len(set().union(*by_seed[:seeds])) == seeds, 'own-random-state-per-seed', f'{len(set().union(*by_seed[:seeds]))} of {seeds}')
    same = [np.array_equal([float(a[k]) for k in a], [float(b[k]) for k in b]) for a, b in zip(results[:per], results[per:])]
    run.expect(fold or all(same), 'same-seed-same-result')
    run.expect((by_seed[:seeds] == by_seed[seeds:]) == (not fold), 'step-folded-in-only-when-asked')


@check('C34')
def step_rngs(run):
  for _ in range(run.n(5)):
    k = jax.random.PRNGKey(run.rng.randrange(99))
    st = FS.FewShotState(rngs=dict(a=k))
    seen = []
    v = object()
    def ap(variables, images, rngs=None):
      seen.append(np.asarray(rngs['a']).tobytes())
      run.expect(variables is v, 'variables-passed-on')
      return images * 2, {'m': 0}
    run.case('step')
    st2, f, l, m = FS._fewshot_step(st, v, np.ones((2, 2)), 'labels', 'valid', ap)
    st3, *_ = FS._fewshot_step(st2, v, np.ones((2, 2)), 'labels', 'valid', ap)
    run.expect(np.array_equal(f, 2 * np.ones((2, 2))) and l == 'labels' and m == 'valid', 'features-labels-mask')
    used = seen + [np.asarray(s.rngs['a']).tobytes() for s in (st, st2, st3)]
    run.expect(len(set(used)) == 5, 'keys-never-reused', f'{used}')
