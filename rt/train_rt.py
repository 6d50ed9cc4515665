"""C18, C19, C27, C28 (vmoe/train/trainer.py, vmoe/utils.py): contracts evaluated on the real code."""
import math
from fractions import Fraction
from rt import absent
absent.install()
import flax
import jax
import jax.numpy as jnp
import numpy as np
import optax
from rt.base import check, raises
from vmoe import utils as U
from vmoe.train import trainer as TR
from vmoe.train.train_state import TrainState


def mesh(run):
  n = jax.device_count()
  a = run.rng.choice([d for d in range(1, n + 1) if n % d == 0])
  return jax.sharding.Mesh(np.asarray(jax.devices()).reshape(a, n // a), ('expert', 'replica'))


@check('C18')
def microsteps(run):
  n = jax.device_count()
  for c in range(run.n(14)):
    ms = run.rng.randint(1, 5) if c else 257
    q = run.rng.randint(1, 3) if c else 1
    B = n * ms * q
    ids = np.arange(B, dtype=np.float32)
    shuffled = run.np.permutation(B).astype(np.float32)
    run.case('microsteps', devices=n, microsteps=ms, per_device=q)
    def fn(params, images, labels, rngs):
      # marks the examples of the call with (number of the call)**k through the key state.
      k = rngs['k']
      hot = jax.nn.one_hot(images[:, 0].astype(jnp.int32), B).sum(0)
      pair = (images[:, 0] * labels).sum()
      return (dict(hot=hot, byk=hot * k, sq=params['w'] * pair), (dict(k=k + 1), dict(loss=pair, first=k * 1., max_k=k * 1., min_k=-k, later=(k > 1).astype(jnp.int32), total=pair, nested=dict(accuracy=k * 2., auxiliary_loss=k * 3.), weights_sum=k * jnp.ones(2))))
    f = TR.accumulate_gradients_and_metrics(fn, ms)
    img = np.stack([shuffled, shuffled], -1)
    lab = np.sqrt(shuffled)
    with mesh(run):
      g, (r, me) = jax.jit(f)(dict(w=jnp.float32(2)), img, lab, dict(k=jnp.float32(1)))
    w = g['hot'] * ms
    run.expect(np.allclose(w, 1, atol=1e-4), 'every-example-once', f'{w}')
    which = np.rint(np.asarray(g['byk'] * ms)).astype(int)[shuffled.astype(int)]
    run.expect(set(which) == set(range(1, ms + 1)), 'microsteps-numbered-in-order', f'{which}')
    per = n * q
    for j in range(1, ms + 1):
      dev = np.nonzero(which == j)[0] // (B // n)
      run.expect(sorted(dev) == sorted(list(range(n)) * q), 'equally-many-examples-of-every-device', f'microstep {j}: devices {sorted(dev)}')
    run.expect(float(r['k']) == ms + 1, 'last-random-state-returned', f'{r} after {ms} microsteps')
    tot = (img[:, 0].astype(np.float64) * lab).sum() / ms
    run.expect(np.allclose(me['loss'], tot, rtol=1e-4) and np.allclose(g['sq'], 2 * tot, rtol=1e-4), 'mean-of-gradients-and-metrics', f'{me} {tot}')
    run.expect(np.allclose(me['first'], (ms + 1) / 2, rtol=1e-5), 'mean-of-metrics-of-all-microsteps', f'{me}')
    mean = (ms + 1) / 2
    for got, want in ((me['max_k'], mean), (me['min_k'], -mean), (me['later'], (ms - 1) / ms), (me['total'], tot), (me['nested']['accuracy'], 2 * mean), (me['nested']['auxiliary_loss'], 3 * mean), (me['weights_sum'], np.full(2, mean))):
      run.expect(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-4), 'mean-of-metrics-of-all-microsteps', f'{me}')
  for ms, per in ((2, 1), (2, 3), (3, 4), (4, 6), (4, 2)):
    B = n * per
    run.case('indivisible', devices=n, microsteps=ms, per_device=per)
    f = TR.accumulate_gradients_and_metrics(lambda p, i, l, r: (dict(w=i.sum()), (r, dict(loss=l.sum()))), ms)
    with mesh(run):
      run.expect(raises(lambda: jax.jit(f)(dict(w=jnp.float32(2)), np.zeros((B, 2), np.float32), np.zeros((B,), np.float32), dict(k=jnp.float32(1)))), 'batch-that-cannot-be-split-evenly-rejected', f'{B} examples on {n} devices, {ms} microsteps')
  fn = lambda *a: None
  for k in (None, 0, -1, -5): run.expect(TR.accumulate_gradients_and_metrics(fn, k) is fn, 'no-microsteps')


def check_weights(run, wi, wl, groups):
  """wi, wl: (B, B) weights of examples in each mixture; groups: device of each example."""
  wi, wl = np.asarray(wi, np.float64), np.asarray(wl, np.float64)
  B = len(wi)
  run.expect((wi >= -1e-7).all(), 'weights-non-negative')
  run.expect(np.allclose(wi.sum(1), 1, atol=1e-5), 'weights-sum-to-one', f'{wi.sum(1)}')
  run.expect(all(wi[b, b] >= wi[b].max() - 1e-6 for b in range(B)), 'own-example-weighs-most', f'{wi}')
  run.expect(np.allclose(wi, wl, atol=1e-6), 'images-and-labels-same-weights', f'{wi} {wl}')
  run.expect(all(wi[b, c] == 0 for b in range(B) for c in range(B) if groups[b] != groups[c]), 'only-within-device-group')


@check('C19')
def mixing(run):
  for _ in range(run.n(25)):
    size = run.rng.randint(1, 5)
    ndim = run.rng.choice([1, 2])
    bd = tuple(run.rng.randint(1, 5) for _ in range(ndim))
    B = int(np.prod(bd))
    axis = run.rng.randrange(ndim)
    shp = tuple(d if run.rng.random() < .5 else 1 for d in bd) + (size,)
    conc = run.rng.choice([0.05, 0.3, 1., 8.])
    key = jax.random.PRNGKey(run.rng.randrange(10**6))
    run.case('mixing', batch=bd, axis=axis, shape=shp, concentration=conc)
    eye = jnp.eye(B).reshape(*bd, B)
    tree = dict(a=eye, b=[eye[..., None] * jnp.ones(3)])
    out = TR.mixup(key, tree, concentration=conc, shape=shp, roll_axis=axis)
    run.expect(jax.tree.structure(out) == jax.tree.structure(tree) and out['b'][0].shape == tree['b'][0].shape and out['a'].shape == eye.shape, 'shape-preserved')
    idx = np.stack(np.unravel_index(np.arange(B), bd), -1)
    groups = [tuple(np.delete(i, axis)) for i in idx]
    check_weights(run, out['a'].reshape(B, B), out['b'][0][..., 1].reshape(B, B), groups)
    again = TR.mixup(key, tree, concentration=conc, shape=shp, roll_axis=axis)
    run.expect(np.array_equal(again['a'], out['a']), 'determined-by-the-key')
  x, y = jnp.ones((4, 2)), jnp.ones((4,))
  k = jax.random.PRNGKey(0)
  run.case('mixup rejections')
  bad = [((x, y), dict(concentration=c)) for c in (0., -1.)] + [((x, y), dict(shape=(2,))), ((x, y), dict(shape=(3, 2))), ((x, jnp.ones((3,))), {}), ((x, y), dict(roll_axis=1)), ((x, y), dict(roll_axis=-1)),
         ((jnp.ones((2, 4, 3)), jnp.ones((2, 1))), dict(shape=(1, 1, 2), roll_axis=1)), ((jnp.ones((2, 4, 3)), jnp.ones((1, 4))), dict(shape=(1, 1, 2), roll_axis=1)), ((jnp.ones((2, 4, 3)), jnp.ones((2, 5))), dict(shape=(2, 1, 2), roll_axis=1))]
  for t, kw in bad:
    run.expect(raises(lambda: TR.mixup(k, t, **(dict(concentration=1., shape=(1, 2), roll_axis=0) | kw)), ValueError), 'invalid-arguments-rejected', f'{kw}')


def state_of(rngs, frozen):
  return TrainState.create(apply_fn=lambda *a, **k: None, params={'w': jnp.ones(2)}, tx=optax.sgd(.1), rngs=flax.core.freeze(rngs) if frozen else dict(rngs))


@check('C19')
def mixup_wrapper(run):
  n = jax.device_count()
  for _ in range(run.n(12)):
    q, size = run.rng.randint(1, 4), run.rng.randint(2, 4)
    B = n * q
    gran = run.rng.choice(['batch', 'device', 'example'])
    frozen = run.rng.random() < .5
    s = run.rng.randrange(10**6)
    run.case('mixup_wrapper', per_device=q, size=size, granularity=gran, frozen=frozen, seed=s)
    rngs = U.make_rngs(('mixup', 'dropout', 'gating'), s)
    rngs = {k: v for k, v in rngs.items()}
    st = state_of(rngs, frozen)
    seen = {}
    def step(state, images, labels, *a, **k):
      seen.update(images=images, labels=labels, rngs=dict(state.rngs), a=a, k=k, frozen=isinstance(state.rngs, flax.core.FrozenDict))
      nxt = {x: jax.random.split(v)[0] for x, v in state.rngs.items()}
      return state.replace(rngs=flax.core.freeze(nxt) if frozen else nxt, step=state.step + 1), 'metrics'
    f = TR.wrap_train_step_with_mixup(step, concentration=.7, granularity=gran, size=size)
    out, me = f(st, jnp.eye(B), jnp.eye(B)[:, :, None], 5, x=6)
    run.expect(seen['images'].shape == (B, B) and seen['labels'].shape == (B, B, 1), 'shape-preserved')
    groups = np.arange(B) // q
    check_weights(run, seen['images'], seen['labels'][..., 0], groups)
    ws = np.sort(np.asarray(seen['images']), 1)[:, ::-1][:, :size]
    if q >= size:
      if gran == 'batch': run.expect(np.allclose(ws, ws[:1], atol=1e-5), 'one-set-of-weights-per-batch')
      if gran == 'device': run.expect(np.allclose(ws.reshape(n, q, -1), ws.reshape(n, q, -1)[:, :1], atol=1e-5), 'one-set-of-weights-per-device')
    if gran != 'batch' and q >= size: run.expect(len(np.unique(np.round(ws[:, 0], 6))) > 1, 'weights-differ-between-groups')
    run.expect(me == 'metrics' and seen['a'] == (5,) and seen['k'] == dict(x=6) and int(out.step) == 1, 'step-called-as-wrapped')
    run.expect(sorted(seen['rngs']) == ['dropout', 'gating'] and all(np.array_equal(seen['rngs'][k], rngs[k]) for k in seen['rngs']), 'other-keys-passed-through')
    run.expect(sorted(out.rngs) == ['dropout', 'gating', 'mixup'] and isinstance(out.rngs, flax.core.FrozenDict) == frozen == seen['frozen'], 'all-keys-in-the-result')
    run.expect(all(np.array_equal(out.rngs[k], jax.random.split(rngs[k])[0]) for k in ('dropout', 'gating')), 'keys-of-the-step-returned')
    run.expect(not np.array_equal(out.rngs['mixup'], rngs['mixup']), 'mixup-key-advances')
    used = TR.mixup
    f2, _ = f(out.replace(rngs=flax.core.freeze(dict(out.rngs)) if frozen else dict(out.rngs)), jnp.eye(B), jnp.eye(B)[:, :, None])
    run.expect(not np.array_equal(f2.rngs['mixup'], out.rngs['mixup']), 'mixup-key-advances')
  run.case('mixup off')
  step = lambda *a: None
  run.expect(all(TR.wrap_train_step_with_mixup(step, concentration=c) is step for c in (None, 0, 0.)), 'no-mixup')
  for c in (-1., -0.1):
    run.expect(raises(lambda: TR.wrap_train_step_with_mixup(step, concentration=c)(state_of(dict(mixup=jax.random.PRNGKey(0)), False), jnp.ones((n, 1)), jnp.ones((n, 1))), ValueError), 'invalid-concentration-rejected', f'{c}')
  f = TR.wrap_train_step_with_mixup(step, concentration=1.)
  run.expect(raises(lambda: f(state_of(dict(dropout=jax.random.PRNGKey(0)), False), jnp.ones((n, 1)), jnp.ones((n, 1))), ValueError), 'missing-key-rejected')
  f = TR.wrap_train_step_with_mixup(step, concentration=1., granularity='pixel')
  run.expect(raises(lambda: f(state_of(dict(mixup=jax.random.PRNGKey(0)), False), jnp.ones((n, 1)), jnp.ones((n, 1))), ValueError), 'unknown-granularity-rejected')


@check('C27')
def reuse(run):
  for it in range(run.n(12)):
    shapes = {'Encoder': {'kernel': (3, 2), 'bias': (2,)}, 'Head': {'kernel': (2, 4), 'scale': ()}, 'a': {'b': {'c': (2, 2)}}}
    if run.rng.random() < .5: shapes.pop('a')
    mk = lambda s, f: {k: mk(v, f) if isinstance(v, dict) else f(v) for k, v in s.items()}
    tx = run.rng.choice([optax.sgd(.1, momentum=.9), optax.adam(.1), optax.sgd(.1)])
    c = [0]
    def val(sh):
      c[0] += 1
      return jnp.full(sh, float(c[0]))
    def initialize():
      c[0] = 100
      p = mk(shapes, val)
      st = TrainState.create(apply_fn=None, params=p, tx=tx, rngs=dict(dropout=jnp.array([7, 8], jnp.uint32)))
      return st.replace(step=jnp.int32(0))
    m = mesh(run)
    full = initialize()
    given = jax.tree.map(lambda x: (x + 1000).astype(x.dtype) if x.dtype != jnp.uint32 else x + 5, full)
    leaves, td = jax.tree.flatten(given)
    keep = [run.rng.random() < .5 for _ in leaves]
    if it == 0: keep = [True] * len(keep)
    if it == 1: keep = [False] * len(keep)
    run.case('reuse', keep=keep, tree=shapes)
    sh = jax.sharding.NamedSharding(m, jax.sharding.PartitionSpec())
    part = td.unflatten([l if k else jax.ShapeDtypeStruct(l.shape, l.dtype, sharding=sh) for l, k in zip(leaves, keep)])
    out = TR.create_or_reuse_train_state(train_state=part, initialize_fn=initialize, mesh=m)
    run.expect(jax.tree.structure(out) == td, 'same-structure', f'{jax.tree.structure(out)}')
    for o, g, i, k in zip(jax.tree.leaves(out), leaves, jax.tree.leaves(full), keep):
      run.expect(isinstance(o, jax.Array), 'all-arrays-present')
      run.expect(np.array_equal(o, g if k else i), 'present-kept-missing-initialised', f'keep={k}: {o} given {g} fresh {i}')


@check('C27')
def steps_and_epochs(run):
  for _ in range(run.n(400)):
    b, n = (run.rng.randint(1, 64), run.rng.randint(1, 2000)) if run.rng.random() < .5 else (run.rng.randint(1, 4096), run.rng.randint(1, 10**8))
    if run.rng.random() < .5:
      s = run.rng.randint(1, 10**6)
      run.case('steps', batch=b, examples=n, steps=s)
      r, e = TR.get_train_steps_and_epochs(train_batch_size=b, train_examples=n, train_steps=s)
      run.expect(r == s, 'steps-as-requested', f'{r}')
    else:
      ep = run.rng.choice([run.rng.randint(1, 50), run.rng.randint(1, 200) / 8])
      run.case('epochs', batch=b, examples=n, epochs=ep)
      r, e = TR.get_train_steps_and_epochs(train_batch_size=b, train_examples=n, train_epochs=ep)
      f = Fraction(ep) * n
      run.expect(isinstance(r, int) and r * b >= f and (r - 1) * b < f, 'fewest-steps-covering-the-epochs', f'{r} steps of {b} for {float(f)} examples')
    run.expect(abs(e - r * b / n) < 1e-9 * max(1, e), 'epochs-consistent', f'{e} {r}')
  run.case('steps and epochs rejected')
  for kw in (dict(), dict(train_steps=3, train_epochs=2), dict(train_steps=0), dict(train_epochs=0)):
    run.expect(raises(lambda: TR.get_train_steps_and_epochs(train_batch_size=2, train_examples=8, **kw), ValueError), 'exactly-one-of-steps-and-epochs', f'{kw}')


def keyset(t):
  return [tuple(np.asarray(x).tolist()) for x in jax.tree.leaves(t)]


@check('C28')
def keys(run):
  for _ in range(run.n(60)):
    seed = run.rng.randrange(2**31)
    names = tuple(run.rng.sample(['params', 'dropout', 'gating', 'mixup', 'a', 'b', 'c'], run.rng.randint(0, 7)))
    run.case('keys', names=names, seed=seed)
    r = U.make_rngs(names, seed)
    run.expect(tuple(sorted(r)) == tuple(sorted(names)), 'one-key-per-name')
    ks = keyset(r)
    run.expect(len(set(ks)) == len(ks), 'distinct-keys', f'{r}')
    run.expect(keyset(U.make_rngs(names, seed)) == ks, 'deterministic')
    if names:
      run.expect(set(keyset(U.make_rngs(names, seed ^ 1))).isdisjoint(ks), 'other-seed-other-keys')
      n = run.rng.randint(1, 5)
      t = dict(x=[r[k] for k in names], y=r) if False else dict(r)
      parts = U.tree_rngs_split(t) if run.rng.random() < .4 else U.tree_rngs_split(t, n)
      run.expect(len(parts) in (2, n), 'number-of-collections')
      alls = [k for p in parts for k in keyset(p)]
      run.expect(len(set(alls + ks)) == len(alls) + len(ks), 'no-key-shared', f'{parts}')
      run.expect(all(jax.tree.structure(p) == jax.tree.structure(t) for p in parts), 'same-structure')


def noisy(log):
  def apply_fn(variables, x, rngs):
    for n in ('dropout', 'gating'):
      jax.debug.callback(lambda k: log.append(tuple(np.asarray(k).tolist())), rngs[n])
    w = variables['params']['w']
    return x * w, {'auxiliary_loss': jnp.sum(w) * 0.5, 'other': jnp.arange(3.)}
  return apply_fn


@check('C28')
def step_keys(run):
  n = jax.device_count()
  for _ in range(run.n(5)):
    log = []
    names = ('dropout', 'gating')
    rngs = U.make_rngs(names, run.rng.randrange(10**6))
    params = {'w': jnp.ones(3)}
    ms = run.rng.choice([None, 1, 2, 3])
    steps = 3
    run.case('step_keys', microsteps=ms, steps=steps)
    st = TrainState.create(apply_fn=noisy(log), params=params, tx=optax.sgd(.1), rngs=dict(rngs))
    carried = [keyset(st.rngs)]
    B = n * (ms or 1)
    f = jax.jit(lambda s, i, l: TR.train_step(s, i, l, lambda a, b: jnp.mean((a - b) ** 2, -1), microsteps=ms))
    with mesh(run):
      for _ in range(steps):
        st, me = f(st, jnp.ones((B, 3)), jnp.zeros((B, 3)))
        jax.effects_barrier()
        carried.append(keyset(st.rngs))
        run.expect(np.allclose(me['total_loss'], me['main_loss'] + me['auxiliary_loss'], rtol=1e-5), 'total-loss')
    run.expect(len(set(log)) == 2 * steps * (ms or 1), 'fresh-keys-in-every-step-and-microstep', f'{len(set(log))} distinct keys used in {steps} steps, {ms} microsteps')
    flat = [k for c in carried for k in c]
    run.expect(len(set(flat)) == len(flat), 'no-key-carried-over-twice')
    run.expect(set(log).isdisjoint(flat), 'carried-keys-not-used')
    run.expect(int(st.step) == steps, 'steps-counted')


@check('C27')
def training_loop(run):
  import contextlib, os, tempfile
  from unittest import mock
  import ml_collections
  for it in range(run.n(12)):
    last = run.rng.randint(1, 6) if it else 2103
    init = run.rng.randint(0, last) if it else 5
    bs = run.rng.randint(1, 9)
    run.case('training_loop', restored_step=init, train_steps=last, batch_size=bs)
    saves, steps, evals, shots, progress = [], [], [], [], []
    ts = TrainState.create(apply_fn=None, params={'w': jnp.zeros(1)}, tx=optax.sgd(.1), rngs={}).replace(step=init)
    ts = ts.replace(params={'w': np.array([init])})
    class Mgr:
      def save(self, step, items=None, force=False, **k): saves.append((step, int(items['state'].params['w'][0]), items['dataset_iterator']['last_seen_index'], force))
      def wait_until_finished(self): pass
    class P:
      def __call__(self, step, **k): progress.append(step)
      def timed(self, *a, **k): return contextlib.nullcontext()
    class F:
      def lower(self, *a): return self
      def compile(self): return self
      def __call__(self, state, i, l):
        steps.append((int(state.params['w'][0]), i, l))
        return state.replace(step=state.step + 1, params={'w': state.params['w'] + 1}), {'loss': 1.}
    cfg = ml_collections.ConfigDict(dict(dataset=dict(train=dict(batch_size=bs)), model=dict(name='x'), optimizer={}, params_axis_resources=[], loss=dict(name='softmax_xent'), train_steps=last))
    batches = ({'image': 10 * k, 'labels': 10 * k + 1} for k in range(10**6))
    with contextlib.ExitStack() as es, tempfile.TemporaryDirectory() as d:
      P_ = lambda o, n, v: es.enter_context(mock.patch.object(o, n, v))
      P_(TR.input_pipeline, 'get_datasets', lambda c: dict(train=1)); P_(TR.input_pipeline, 'get_data_num_examples', lambda c: 10)
      P_(TR.pjit_utils, 'get_dataset_shape_dtype_struct', lambda d_: dict(image=1, labels=2))
      P_(TR, 'create_checkpoint_manager', lambda **k: Mgr()); P_(TR, 'make_create_train_state_fn', lambda **k: None)
      P_(TR, 'create_flax_model', lambda **k: None); P_(TR, 'restore_or_create_train_state', lambda **k: (ts, None))
      P_(TR, 'get_dataset_iterator', lambda **k: batches); P_(TR.pjit, 'pjit', lambda *a, **k: F())
      P_(TR.jax.tree_util, 'tree_map', lambda f, *t: None) if False else None
      P_(TR, 'create_profile_hook', lambda **k: (lambda s: None)); P_(TR, 'create_progress_hook', lambda **k: P())
      P_(TR, 'create_evaluation_hook', lambda **k: ((lambda s, params=None, **kk: evals.append((s, int(params['w'][0])))), {}))
      P_(TR, 'create_fewshot_hook', lambda **k: ((lambda s, variables=None, **kk: shots.append((s, int(variables['params']['w'][0])))), {}))
      P_(TR.multihost_utils, 'sync_devices', lambda *a: None); P_(TR.utils, 'get_flops_and_seconds_per_device', lambda f: (None, None))
      ts = jax.tree.map(lambda x: jnp.asarray(x), ts)
      TR.train_and_evaluate(cfg, d, jax.sharding.Mesh(np.asarray(jax.devices()).reshape(1, -1), ('expert', 'replica')), mock.MagicMock())
    run.expect([s[0] for s in steps] == list(range(init, last)), 'every-remaining-step-once-in-order', f'{steps}')
    run.expect([s[1:] for s in steps] == [(10 * k, 10 * k + 1) for k in range(last - init)], 'each-step-takes-the-next-batch', f'{steps}')
    for s, w, idx, force in saves:
      run.expect(s == w, 'checkpoint-named-after-its-step', f'{saves}')
      run.expect(idx == s * bs, 'examples-used', f'{saves}')
    run.expect(saves and saves[-1][0] == last and saves[-1][3], 'last-state-checkpointed', f'{saves}')
    run.expect([s for s, _, _, f in saves if not f] == list(range(init + 1, last + 1)), 'checkpoint-requested-after-each-step', f'{saves}')
    run.expect(init != 0 or saves[0][0] == 0, 'initial-state-checkpointed')
    want = [(s, s) for s in range(init + 1, last + 1)]
    run.expect(evals == want and shots == want and progress == [s for s, _ in want], 'hooks-see-state-after-step', f'{evals} {shots} {progress}')
