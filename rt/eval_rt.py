"""C20, C21, C22 (vmoe/evaluate/evaluator.py, vmoe/data): contracts evaluated on the real code."""
import functools
import types
from unittest import mock
import clu.data
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from rt.base import check, raises
from vmoe.data import builder as BU
from vmoe.data import input_pipeline as IP
from vmoe.data import pjit_utils as PJ
from vmoe.evaluate import evaluator as EV


def the_mesh(run=None):
  n = jax.device_count()
  a = 1 if run is None else run.rng.choice([1, 2, 4, 8])
  return jax.sharding.Mesh(np.asarray(jax.devices()).reshape(a, n // a), ('a', 'b'))


def apply_fn(v, x, rngs=None): return x * v['params']['w'], {}
def loss_vec(lo, la): return jnp.sum((lo - la)**2, -1)
def loss_mat(lo, la): return (lo - la)**2
def pred(lo): return jnp.argmax(lo, -1)


def make_examples(run, n, C, soft):
  x = run.np.normal(size=(n, C)).astype(np.float32)
  if soft: y = run.np.uniform(size=(n, C)).astype(np.float32)
  else: y = np.eye(C, dtype=np.float32)[run.np.integers(0, C, size=n)]
  return x, y


def expected(x, y, w):
  lo = x * w
  return len(x), float(sum(y[i, np.argmax(lo[i])] for i in range(len(x)))), float(((lo - y)**2).sum())


def arrange(run, x, y, bs, C):
  """Batches with padding (finite garbage) scattered among the examples."""
  n = len(x)
  total = -(-n // bs) * bs + bs * run.rng.randint(0, 2)
  if total == 0: total = bs
  pos = run.np.choice(total, size=n, replace=False)
  if run.rng.random() < .5: pos = np.arange(n)
  img = (run.np.normal(size=(total, C)) * 100).astype(np.float32) if run.rng.random() < .7 else np.zeros((total, C), np.float32)
  lab = run.np.uniform(size=(total, C)).astype(np.float32) * 50
  val = np.zeros(total, bool)
  img[pos], lab[pos], val[pos] = x, y, True
  kind = run.rng.choice(['bool', 'float32', 'int32'])
  return img, lab, val.astype(kind)


@check('C20')
def steps_and_batches(run):
  for _ in range(run.n(14)):
    C = run.rng.randint(1, 5)
    n = run.rng.randint(0, 20)
    x, y = make_examples(run, n, C, run.rng.random() < .5)
    w = np.float32(run.rng.choice([1., -2., .5]))
    want = expected(x, y, w)
    loss = run.rng.choice([loss_vec, loss_mat])
    sums = []
    run.case('steps_and_batches', n=n, classes=C)
    for _ in range(2):
      bs = run.rng.choice([1, 2, 5, 8])
      img, lab, val = arrange(run, x, y, bs, C)
      keys = dict(k=jax.random.PRNGKey(run.rng.randrange(1000)))
      seen = []
      def ap(v, z, rngs=None):
        seen.append(np.asarray(rngs['k']))
        return apply_fn(v, z)
      step = functools.partial(EV.evaluate_step, apply_fn=ap, loss_fn=loss, label_pred_fn=pred)
      st = EV.EvalState(num=jnp.float32(0), sum_correct=jnp.float32(0), sum_loss=jnp.float32(0), rngs=keys)
      ds = [{'image': img[i:i + bs], 'labels': lab[i:i + bs], EV.VALID_KEY: val[i:i + bs]} for i in range(0, len(img), bs)]
      st = EV.evaluate_dataset(eval_step_pjit=step, eval_state=st, dataset=ds, params=dict(w=w))
      run.expect(float(st.num) == n, 'counts-valid-examples', f'{st.num} of {n}')
      run.expect(np.allclose(float(st.sum_correct), want[1], rtol=1e-4, atol=1e-4), 'correct-of-valid-examples', f'{st.sum_correct} want {want}')
      run.expect(np.allclose(float(st.sum_loss), want[2], rtol=1e-4, atol=1e-3), 'loss-of-valid-examples', f'{st.sum_loss} want {want}')
      allk = [k.tobytes() for k in seen] + [np.asarray(st.rngs['k']).tobytes()]
      run.expect(len(seen) == len(ds) and len(set(allk)) == len(allk), 'random-state-advances', f'{allk}')


@check('C20')
def reported(run):
  for _ in range(run.n(3)):
    C = run.rng.randint(2, 4)
    m = the_mesh(run)
    sets, want = {}, {}
    w = np.float32(run.rng.choice([1., -1.]))
    for name in run.rng.sample(['val', 'test', 'other'], run.rng.randint(1, 3)):
      n = run.rng.choice([1, 2, run.rng.randint(1, 40)])
      x, y = make_examples(run, n, C, False)
      img, lab, val = arrange(run, x, y, 8 * run.rng.randint(1, 2), C)
      d = tf.data.Dataset.from_tensor_slices({'image': img, 'labels': lab, EV.VALID_KEY: val}).batch(8, drop_remainder=True)
      sets[name] = clu.data.TfDatasetIterator(d, checkpoint=False)
      e = expected(x, y, w)
      want[name] = e[1] / e[0], e[2] / e[0]
    run.case('reported', sets=sorted(sets), classes=C)
    writer = mock.MagicMock()
    with m:
      act = EV.EvaluateMultipleDatasets(apply_fn=apply_fn, loss_fn=loss_vec, label_pred_fn=pred, datasets=sets, metric_writer=writer, rng_keys=['k'], every_steps=2)
      for s in (1, 2, 3, 4): act(step=s, params=dict(w=jnp.full((), w)), other=3)
    calls = [c.args for c in writer.write_scalars.call_args_list if any(k.endswith('prec@1') for k in c.args[1])]
    run.expect([c[0] for c in calls] == [2, 4], 'evaluated-at-its-steps', f'{[c[0] for c in calls]}')
    for s, d in calls:
      for name, (p, l) in want.items():
        run.expect(np.allclose(float(d[f'{name}/prec@1']), p, atol=1e-5), 'accuracy-of-valid-examples', f'step {s} {name}: {d} want {p}')
        run.expect(np.allclose(float(d[f'{name}/loss']), l, rtol=1e-4), 'loss-of-valid-examples', f'step {s} {name}: {d} want {l}')
      run.expect(d.get('other') == 3, 'other-values-passed-on')


@check('C21')
def counts(run):
  for _ in range(run.n(4000)):
    P = run.rng.randint(1, 6)
    b = run.rng.choice([1, 2, 3, 5, 8, run.rng.randint(1, 40)])
    N = [run.rng.randint(0, run.rng.choice([1, 5, 60])) for _ in range(P)]
    run.case('counts', processes=P, batch=b, examples=N)
    f = [BU._get_num_fake_examples(p, b, N) for p in range(P)]
    run.expect(min(f) >= 0, 'not-negative', f'{f}')
    tot = {n + k for n, k in zip(N, f)}
    run.expect(len(tot) == 1, 'same-total-everywhere', f'{tot}')
    t = tot.pop()
    run.expect(t % b == 0 and t - b < max(N) <= t, 'fewest-whole-batches', f'{t} batch {b} of {N}')


class FakeTfds:
  """A TFDS builder of integers 0..n-1 with sub-splits lo:hi."""
  def __init__(self, n): self.n = n
  @property
  def info(self):
    s = self
    class Sp:
      def __getitem__(self, k):
        lo, hi = (0, s.n) if isinstance(k, str) else k
        return types.SimpleNamespace(num_examples=hi - lo)
    return types.SimpleNamespace(splits=Sp())
  def as_dataset(self, split=None, **k):
    lo, hi = (0, self.n) if isinstance(split, str) else split
    return tf.data.Dataset.range(lo, hi).map(lambda i: {'x': i})


@check('C21')
def pipeline(run):
  for _ in range(run.n(8)):
    P = run.rng.randint(1, 4)
    dev = run.rng.choice([1, 2])
    per = run.rng.choice([1, 2, 3, 4])
    n = run.rng.randint(0, 23)
    bs = P * dev * per
    cache = run.rng.choice([None, 'loaded', 'batched'])
    prefetch = run.rng.choice([None, 2, 'autotune'])
    name = run.rng.choice(['all', 'train[:50%]', 'validation[10:]', 'test+train[3%:]'])
    run.case('pipeline', split=name, processes=P, devices=P * dev, batch_size=bs, examples=n, cache=cache, prefetch=prefetch)
    def even(split, k, drop_remainder=False):
      e, r = divmod(n, k)
      if drop_remainder: r = 0
      out, lo = [], 0
      for i in range(k):
        hi = lo + e + (i < r)
        out.append((lo, hi)); lo = hi
      return out
    seen, numb = [], set()
    for p in range(P):
      def mine(split, drop_remainder=False): return even(split, P, drop_remainder)[p]
      with mock.patch.object(BU, '_get_tfds_builder', lambda *a: FakeTfds(n)), mock.patch.object(BU.tfds, 'even_splits', even), \
          mock.patch.object(BU.tfds, 'split_for_jax_process', mine), mock.patch.object(jax, 'process_count', lambda *a: P), \
          mock.patch.object(jax, 'process_index', lambda *a: p), mock.patch.object(jax, 'device_count', lambda *a: P * dev):
        it = IP.get_dataset(variant=run.rng.choice(['val', 'test']), name='d', split=name, batch_size=bs, process='copy("x", "y")', cache=cache, prefetch=prefetch)
        bad = bs + run.rng.choice([1, dev * P - 1 or 1])
        if bad % (P * dev): run.expect(raises(lambda: IP.get_dataset(variant='val', name='d', split='all', batch_size=bad, process='copy("x", "y")'), ValueError), 'uneven-batch-sizes-rejected', f'{bad}')
        bat = []
        for b in it:
          bat.append(b)
          if len(bat) > 200: break
      numb.add(len(bat))
      for b in bat:
        v = np.asarray(b[IP.VALID_KEY])
        run.expect(v.shape == (dev * per,), 'full-batches', f'{v.shape}')
        x, y = np.asarray(b['x']), np.asarray(b['y'])
        run.expect((x == y).all(), 'processed')
        seen += [int(a) for a, q in zip(x, v) if q]
    run.expect(len(numb) == 1, 'same-number-of-batches', f'{numb}')
    run.expect(sorted(seen) == list(range(n)), 'every-example-valid-exactly-once', f'{sorted(seen)}')


@check('C22')
def stream(run):
  n = jax.device_count()
  for _ in range(run.n(24)):
    N = run.rng.choice([0, 1, 2, 3, 7, 12, 20])
    size = run.rng.choice([None, 0, -1, -7, 1, 2, 3, 4, 5, 7, 8, 11, 50])
    m = the_mesh(run)
    q = run.rng.randint(1, 3)
    dt = run.rng.choice(['float32', 'int32', 'bool', 'uint8'])
    data = [dict(i=np.full((n * q, 2), k, np.int32), x=[run.np.integers(0, 2, size=(n * q,)).astype(dt)], s=np.asarray([f'n{k}'] * n)) for k in range(N)]
    same = run.rng.random() < .3
    if same and data: data = [run.rng.choice([data[0], data[-1]]) for k in range(N)]
    run.case('stream', length=N, repeated=same, size=size, mesh=m.shape, dtype=dt, rows=q)
    read, got, cap = [0], 0, max(size or 0, 0)
    for d in data:
      if run.rng.random() < .5: d['i'] = tf.constant(d['i'])
    slim = {id(d): {k: v for k, v in d.items() if k != 's'} for d in data}
    def src():
      for d in data:
        read[0] += 1
        # the batch about to be handed out may be held as well
        run.expect(read[0] <= got + cap + 1, 'never-ahead-by-more-than-size', f'read {read[0]} handed out {got} size {size}')
        yield {k: v for k, v in d.items() if k != 's'} if not same else slim[id(d)]
    ctx = run.rng.random() < .5
    it = PJ.prefetch_to_device(src(), size, m)
    for b in it:
      run.expect(got < N, 'no-extra-batch')
      d = data[got]
      got += 1
      run.expect(read[0] <= got + cap, 'never-ahead-by-more-than-size', f'read {read[0]} handed out {got} size {size}')
      run.expect(set(b) == {'i', 'x'} and np.array_equal(b['i'], d['i']) and np.array_equal(b['x'][0], d['x'][0]), 'same-batch-in-order', f'{b} {d}')
      run.expect(b['x'][0].dtype == d['x'][0].dtype, 'same-type')
      for a in (b['i'], b['x'][0]):
        for k, dv in enumerate(m.devices.flat):
          sh = [s for s in a.addressable_shards if s.device == dv]
          run.expect(len(sh) == 1 and np.array_equal(sh[0].data, np.asarray(a)[k * q:(k + 1) * q]), 'rows-in-device-order', f'{k}')
    run.expect(got == N and read[0] == N, 'every-batch-once', f'{got} of {N}')
    for k, bad in ((2, 3), (3, 4), (4, 2), (n, n * q - 1)):
      if bad % k: run.expect(raises(lambda: PJ.put_to_devices(np.zeros((bad, 3)), jax.devices()[:1] * k), ValueError) and raises(lambda: PJ.put_to_devices(np.zeros((bad,), np.int32), jax.devices()[:1] * k), ValueError), 'uneven-rejected', f'{bad} rows, {k} devices')
    for bad in {n * q + 1, n * q - 1, q if q % n else 1} - {0}:
      if bad % n == 0: continue
      run.expect(raises(lambda: list(PJ.prefetch_to_device(iter([dict(x=np.zeros((bad, 3)))]), size, m)), ValueError), 'uneven-rejected', f'{bad}')
