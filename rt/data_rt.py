"""C37 (vmoe/data/builder.py, input_pipeline.py, pjit_utils.py): contracts evaluated on the real code."""
import types
from unittest import mock
import jax
import ml_collections
import numpy as np
import tensorflow as tf
from rt.base import check, raises
from rt.eval_rt import the_mesh
from vmoe.data import builder as BU
from vmoe.data import input_pipeline as IP
from vmoe.data import pjit_utils as PJ


class Tfds:
  """TFDS, recording what it is asked for; the examples are lo..hi-1 of the part of this process."""
  def __init__(self, n, bad=()): self.n, self.bad, self.log = n, bad, []
  def builder(self, name, *, data_dir=None, try_gcs=False): return self._b(('builder', name, data_dir, try_gcs))
  def builder_from_directory(self, d): return self._b(('directory', d))
  def _b(self, how):
    T = self
    class B:
      prepared = None
      info = types.SimpleNamespace(splits=types.SimpleNamespace(__getitem__=None))
      def download_and_prepare(self, *, download_dir=None, download_config=None): self.prepared = download_config
      def as_dataset(self, split=None, *, shuffle_files=False, decoders=None, read_config=None):
        T.log.append(dict(how=how, prepared=self.prepared, split=split, shuffle=shuffle_files, decoders=decoders, seed=read_config.shuffle_seed))
        d = tf.data.Dataset.range(*split)
        if T.bad: d = d.map(lambda i: tf.debugging.check_numerics(tf.where(tf.reduce_any(i == np.asarray(T.bad)), np.nan, 0.), 'bad') * 0 + tf.cast(i, tf.float32)).map(lambda x: tf.cast(x, tf.int64))
        return d.map(lambda i: {'x': i})
    class Sp:
      def __getitem__(self, s):
        T.log.append(s)
        lo, hi = (0, T.n) if isinstance(s, str) else s
        return types.SimpleNamespace(num_examples=hi - lo)
    b = B()
    b.info = types.SimpleNamespace(splits=Sp())
    return b


def patched(run, T, p=0, P=1):
  def even(split, k, drop_remainder=False):
    e, r = divmod(T.n, k)
    if drop_remainder: r = 0
    c = np.cumsum([0] + [e + (i < r) for i in range(k)]).tolist()
    return list(zip(c, c[1:]))
  def mine(split, process_index=None, process_count=None, drop_remainder=False):
    T.log.append(('split', split))
    return even(split, P, drop_remainder)[p]
  import contextlib
  s = contextlib.ExitStack()
  for a, b in (('builder', T.builder), ('builder_from_directory', T.builder_from_directory), ('even_splits', even), ('split_for_jax_process', mine)):
    s.enter_context(mock.patch.object(BU.tfds, a, b))
  s.enter_context(mock.patch.object(jax, 'process_count', lambda *a: P))
  s.enter_context(mock.patch.object(jax, 'process_index', lambda *a: p))
  s.enter_context(mock.patch.object(jax, 'device_count', lambda *a: P))
  return s


SPLITS = ['all', 'train[:50%]', 'validation[10:]', 'test+train[3%:]', 'train']
_n = [0]


@check('C37')
def sources(run):
  for _ in range(run.n(10)):
    _n[0] += 1
    P = run.rng.randint(1, 4); p = run.rng.randrange(P); n = run.rng.randint(P, 30)
    own = run.rng.random() < .4
    name = run.rng.choice(['from_directory:', 'from_directory:my_set/1.0']) if own else run.rng.choice(['cifar10', 'imagenet2012:5.1.0', 'from_dir'])
    d = f'/data/{_n[0]}'
    kw = dict(data_dir=d, manual_dir=run.rng.choice([None, '/raw']), shuffle_seed=run.rng.choice([None, 0, 3]), shuffle_files=run.rng.random() < .5, try_gcs=run.rng.random() < .5)
    bad = sorted({run.rng.randrange(n) for _ in range(2)}) if run.rng.random() < .4 else []
    if bad: kw['ignore_errors'] = True
    split = run.rng.choice(SPLITS)
    run.case('source', name=name, split=split, processes=P, process=p, examples=n, broken=bad, **kw)
    T = Tfds(n, bad)
    with patched(run, T, p, P):
      b = BU.get_dataset_builder(name=name, split=split, **kw)
      run.expect(b.num_examples == n and split in T.log, 'examples-of-the-split', f'{b.num_examples} of {n}')
      ds = b.as_dataset()
      got = [int(e['x']) for e in ds]
      if bad:
        kw2 = {k: v for k, v in kw.items() if k != 'ignore_errors'}
        if any(lo <= x < hi for x in bad for lo, hi in [T.log[-1]['split']]): run.expect(raises(lambda: list(BU.get_dataset_builder(name=name, split=split, **kw2).as_dataset()), Exception), 'errors-reported-unless-ignored')
    r = [x for x in T.log if isinstance(x, dict)][0]
    e, m = divmod(n, P)
    lo = p * e + min(p, m)
    run.expect(got == [i for i in range(lo, lo + e + (p < m)) if i not in bad], 'exactly-the-part-of-this-process', f'{got}')
    run.expect(('split', split) in T.log, 'configured-split')
    if own: run.expect(r['how'] == ('directory', d), 'own-directory', f'{r["how"]}')
    else:
      run.expect(r['how'] == ('builder', name, d, kw['try_gcs']), 'named-data-set', f'{r["how"]}')
      run.expect(r['prepared'] is not None and (r['prepared'].manual_dir is None) == (kw['manual_dir'] is None) and str(r['prepared'].manual_dir) == str(kw['manual_dir']), 'prepared-from-raw-data')
    run.expect(r['shuffle'] == kw['shuffle_files'] and r['seed'] == kw['shuffle_seed'], 'files-shuffled-as-asked')
    run.expect(list(r['decoders'] or ()) == ['image'] and type(r['decoders']['image']).__name__ == 'SkipDecoding', 'images-left-encoded')


@check('C37')
def training_data(run):
  for _ in range(run.n(10)):
    _n[0] += 1
    n = run.rng.choice([1, 2, 5, 13, 40])
    bs = run.rng.choice([1, 2, 4, 7])
    buf = run.rng.choice([1, 1, 4, 100])
    seed = run.rng.choice([None, 1, 5])
    cache = run.rng.choice([None, None, 'loaded'])
    keep = run.rng.choice([None, lambda d: d['x'] % 2 == 0])
    pre = run.rng.choice([None, 2, 'autotune'])
    ops, f = run.rng.choice([('copy("x", "y")', lambda x: {'x': x, 'y': x}), ('copy("x", "y")|copy("y", "z")|keep("z")', lambda x: {'z': x}), ('value_range(0, 2, 0, 1, key="x")', lambda x: {'x': x / 2})][:2])
    k = run.rng.choice([3, 12])
    run.case('training-data', examples=n, batch_size=bs, buffer=buf, seed=seed, cache=cache, filter=keep is not None, prefetch=pre, ops=ops, batches=k)
    def take():
      _n[0] += 1
      T = Tfds(n)
      with patched(run, T):
        it = IP.get_dataset(variant='train', name='d', split='train', batch_size=bs, process=ops, cache=cache, shuffle_buffer=buf, shuffle_seed=seed, pre_filter_fn=keep, prefetch=pre, num_parallel_calls=1, data_dir=f'/t/{_n[0]}')
        r = [next(it) for _ in range(k)]
      return T, r
    T, r = take()
    a = [x for x in T.log if isinstance(x, dict)][0]
    run.expect(a['shuffle'] is True and a['seed'] == seed, 'files-shuffled-for-training', f'{a}')
    ks = set(f(0))
    run.expect(all(set(b) == ks and len({np.asarray(v).shape for v in b.values()}) == 1 and np.asarray(b[min(ks)]).shape == (bs,) for b in r), 'full-batches-processed-as-configured')
    xs = [int(x) for b in r for x in np.asarray(b[min(ks)])]
    run.expect(all(len({int(np.asarray(b[q])[i]) for q in ks}) == 1 for b in r for i in range(bs)), 'processed-as-configured')
    ids = [i for i in range(n) if keep is None or i % 2 == 0]
    stream = (ids * (len(xs) + buf + 1))[:len(xs) + buf - 1]
    from collections import Counter
    over = Counter(xs) - Counter(stream)
    run.expect(not over, 'every-example-equally-often', f'{xs} of {ids} with buffer {buf}')
    if buf == 1: run.expect(xs == stream[:len(xs)], 'repeated-forever', f'{xs}')
    elif len(ids) >= 20 and len(xs) >= 20: run.expect(xs != stream[:len(xs)], 'shuffled', f'{xs}')
    if seed is not None and buf > 1: run.expect([int(x) for b in take()[1] for x in np.asarray(b[min(ks)])] == xs, 'same-seed-same-order')
    T = Tfds(n)
    with patched(run, T):
      it = IP.get_dataset(variant='val', name='d', split='val', batch_size=bs, process=ops, cache=cache, shuffle_buffer=buf, pre_filter_fn=keep, prefetch=pre, num_parallel_calls=1, data_dir=f'/t/v{_n[0]}')
      m = -(-n // bs)
      r = [b for _, b in zip(range(m + 2), it)]
    a = [x for x in T.log if isinstance(x, dict)][0]
    run.expect(not a['shuffle'], 'evaluation-files-not-shuffled')
    xs = [int(x) for b in r for x, v in zip(np.asarray(b[min(ks)]), np.asarray(b[IP.VALID_KEY])) if v]
    if keep is None: run.expect(sorted(xs) == ids, 'evaluation-examples-once', f'{xs}')
    else: run.expect(len(set(xs)) == len(xs) and set(xs) <= set(ids) and len(xs) > len(ids) - bs, 'only-filtered-examples-once', f'{xs}')


@check('C37')
def configurations(run):
  for _ in range(run.n(6)):
    n = run.rng.randint(1, 9)
    cfg = ml_collections.ConfigDict({v: dict(name='d', split=run.rng.choice(SPLITS), batch_size=2, process='copy("x", "y")', data_dir=f'/c/{_n[0]}', **run.rng.choice([{}, dict(prefetch_device=3), dict(cache='loaded', prefetch=2)]))
                                     for v in run.rng.sample(['val', 'test', 'train', 'x'], run.rng.randint(0, 3))})
    run.case('configurations', config=str(cfg), examples=n)
    _n[0] += 1
    before = cfg.to_dict()
    T = Tfds(n)
    with patched(run, T):
      ds = IP.get_datasets(cfg)
      run.expect(set(ds) == set(cfg), 'one-data-set-per-variant', f'{set(ds)}')
      asked = [x[1] for x in T.log if isinstance(x, tuple) and x[0] == 'split']
      run.expect(asked == [cfg[v].split for v in cfg], 'each-from-its-own-configuration', f'{asked}')
      for v in cfg:
        extra = dict(num_parallel_calls=3, shuffle_buffer=2, variant=v) if run.rng.random() < .5 else {}
        c = ml_collections.ConfigDict(dict(cfg[v].to_dict(), **extra))
        T.log.clear()
        run.expect(IP.get_data_num_examples(c) == n and T.log[-1] == cfg[v].split, 'counts-the-configured-split', f'{T.log}')
      bad = ml_collections.ConfigDict(dict(before)); bad['oops'] = run.rng.choice(['d', 3, None])
      run.expect(raises(lambda: IP.get_datasets(bad), TypeError), 'not-a-configuration-rejected')
    run.expect(cfg.to_dict() == before, 'configuration-not-modified')


@check('C37')
def announced(run):
  n = jax.device_count()
  for _ in range(run.n(12)):
    m, q, P = the_mesh(run), run.rng.randint(1, 3), run.rng.choice([1, 1, 2, 3])
    dt = run.rng.choice(['float32', 'int32', 'bool', 'uint8'])
    shape = (n * q,) + run.rng.choice([(), (2,), (3, 1), (2, 2, 3)])
    run.case('announced', mesh=m.shape, rows=n * q, processes=P, dtype=dt, shape=shape)
    data = dict(x=run.np.integers(0, 2, size=shape).astype(dt), y=(np.zeros((n * q, 2), np.float32),))
    ds = tf.data.Dataset.from_tensors(data)
    ctx = run.rng.random() < .5
    with mock.patch.object(jax, 'process_count', lambda *a: P):
      if ctx:
        with m: s = PJ.get_dataset_shape_dtype_struct(ds)
      else:
        other = jax.sharding.Mesh(np.asarray(jax.devices()[:1]), ('z',))
        with other: s = PJ.get_dataset_shape_dtype_struct(ds, m)
    b = list(PJ.prefetch_to_device(iter(ds), 1, m))[0]
    run.expect(jax.tree_util.tree_structure(s) == jax.tree_util.tree_structure(b), 'structure-of-a-batch')
    for g, w in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(b)):
      run.expect(tuple(g.shape) == (w.shape[0] * P,) + w.shape[1:], 'rows-of-all-processes', f'{g.shape} {w.shape} x {P}')
      run.expect(np.dtype(g.dtype) == w.dtype, 'type-of-the-batch', f'{g.dtype} {w.dtype}')
      run.expect(g.sharding.is_equivalent_to(w.sharding, w.ndim), 'split-like-the-batch', f'{g.sharding} {w.sharding}')
    run.expect(raises(lambda: PJ.get_dataset_shape_dtype_struct(ds), AssertionError), 'a-mesh-is-needed')
