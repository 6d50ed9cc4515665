"""C37: data sets are read and described as configured (vmoe/data/builder.py, input_pipeline.py, pjit_utils.py)."""
import itertools
import types as _types
import z3
from vc import core, loader
from vc.core import obligation, fresh_int, term
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use
from contracts.training import ok, Conf

BUILDER = 'vmoe.data.builder'
PIPE = 'vmoe.data.input_pipeline'
PJIT = 'vmoe.data.pjit_utils'
ns = _types.SimpleNamespace
_count = itertools.count()


@contract('C37', functions=[f'{BUILDER}.TfdsBuilder.as_dataset', f'{BUILDER}.TfdsBuilder.num_examples', f'{BUILDER}.TfdsBuilder._tfds_builder', f'{BUILDER}._get_tfds_builder', f'{BUILDER}.get_dataset_builder'], max_paths=400)
def source():
  """Any name, directory, split, number of examples, seed and options."""
  m = loader.load(BUILDER)
  own_dir, gcs, shuffle, ignore = (core.choose(2) for _ in range(4))
  k = next(_count)                                    # builders are cached by name and directory: new ones every time
  name = f'from_directory:{k}' if own_dir else f'set{k}:1.2'
  data_dir, manual, seed, split, part = f'/data/{k}', *(object() for _ in range(4))
  if not own_dir and core.choose(2): data_dir = None
  n = fresh_int('examples', 0)
  log = []
  class Data:
    def __init__(self, ig=False): self.ig = ig
    def ignore_errors(self, *a, **kw): return Data(True)
    def apply(self, f): return f(self)
  class B:
    def __init__(self, how): self.how, self.prepared = how, None
    class info:
      class splits_(dict):
        def __missing__(self, s):
          if s is not split: raise core.Unsupported('another split')
          return ns(num_examples=n)
      splits = splits_()
    def download_and_prepare(self, *, download_dir=None, download_config=None, **kw): self.prepared = download_config
    def as_dataset(self, split=None, *, batch_size=None, shuffle_files=False, decoders=None, read_config=None, as_supervised=False, **kw):
      if batch_size or as_supervised or kw: raise core.Unsupported('other reading options')
      log.append(('read', self, split, bool(shuffle_files), decoders, read_config))
      return Data()
  def make(name, *, try_gcs=False, data_dir=None, **kw):
    if kw: raise core.Unsupported('other builder options')
    return B(('builder', name, data_dir, bool(try_gcs)))
  skip = object()
  def mine(s, process_index=None, process_count=None, drop_remainder=False):
    ok('the part of this process of the configured split', s is split and process_index is None and process_count is None and not drop_remainder)
    return part
  def config(shuffle_seed=None, **kw):
    return ns(shuffle_seed=shuffle_seed)
  tf_ = ns(builder=make, builder_from_directory=lambda d: B(('directory', d)), split_for_jax_process=mine, ReadConfig=config,
           decode=ns(SkipDecoding=lambda: skip), download=ns(DownloadConfig=lambda manual_dir=None, **kw: ns(manual_dir=manual_dir)))
  core.assumption('assumed: tfds.builder, builder_from_directory, download_and_prepare, as_dataset and split_for_jax_process as documented by TFDS')
  kw = dict(data_dir=data_dir, manual_dir=manual, shuffle_seed=seed)
  if shuffle: kw['shuffle_files'] = True
  if gcs: kw['try_gcs'] = True
  if ignore: kw['ignore_errors'] = True
  with use(m, tfds=tf_):
    b = m.get_dataset_builder(name=name, split=split, **kw)
    size = b.num_examples
    out = b.as_dataset()
  obligation('as many examples as the configured split', term(size) == n.t)
  ok('read once', len(log) == 1)
  _, src, sp, sh, dec, rc = log[0]
  if own_dir: ok('from the given directory', src.how == ('directory', data_dir))
  else:
    ok('the named data set, where it is stored', src.how == ('builder', name, data_dir, bool(gcs)))
    ok('prepared from the given raw data', src.prepared is not None and src.prepared.manual_dir is manual)
  ok('the part of this process', sp is part)
  ok('images are left encoded', isinstance(dec, dict) and list(dec) == ['image'] and dec['image'] is skip)
  ok('files are shuffled only if asked, with the given seed', sh == bool(shuffle) and rc is not None and rc.shuffle_seed is seed)
  ok('errors are ignored only if asked', isinstance(out, Data) and out.ig == bool(ignore))


class Flow:
  """A tf.data.Dataset as the list of steps applied to the examples read."""
  element_spec = {}
  def __init__(self, log=()): self.log = tuple(log)
  def _new(self, *w): return Flow(self.log + (w,))
  def cache(self, *a): return self._new('cache')
  def prefetch(self, n): return self._new('prefetch', n)
  def shuffle(self, n, seed=None, reshuffle_each_iteration=None): return self._new('shuffle', n, seed) if reshuffle_each_iteration in (None, True) else self._new('other')
  def filter(self, f): return self._new('filter', f)
  def map(self, map_func, num_parallel_calls=None, deterministic=None, **k): return self._new('map', map_func)
  def repeat(self, n=None): return self._new('repeat', n)
  def concatenate(self, o): return self._new('padding')
  def batch(self, n, drop_remainder=False, **k): return self._new('batch', n, bool(drop_remainder))


@contract('C37', functions=[f'{PIPE}.get_dataset', f'{PIPE}._compose_fns'], max_paths=600)
def reading():
  """Any variant, options, seed, buffer size, filter; processed by arbitrary operations."""
  m = loader.load(PIPE)
  P = fresh_int('processes', 1)
  each = fresh_int('batch_per_device', 1)
  D = fresh_int('devices_per_process', 1)
  core.assume(z3.And(term(P) >= 1, term(D) >= 1))
  variant = ['train', 'val'][core.choose(2)]
  cache = [None, 'loaded', 'batched'][core.choose(3)]
  prefetch = [None, 0, 3, 'autotune'][core.choose(4)]
  flt = (lambda d: True) if core.choose(2) else None
  name, split, seed, buf, extra = (object() for _ in range(5))
  log = []
  def make(**k):
    log.append(k)
    return ns(as_dataset=lambda: Flow(), get_num_fake_examples=lambda b: 0)
  def proc(s):
    ok('processed as configured', s == 'ops')
    return lambda d: {**d, 'processed': True}
  kw = dict(shuffle_buffer=buf) if core.choose(2) else {}
  with use(m, vmoe=ns(data=ns(builder=ns(get_dataset_builder=make))), jax=Over(m.jax, process_count=lambda: 1, device_count=lambda: D), get_data_process_fn=proc,
           TfDatasetIterator=lambda d, checkpoint=True: (d, checkpoint), tf=ns(data=ns(experimental=ns(AUTOTUNE=-1), AUTOTUNE=-1)), DEFAULT_SHUFFLE_BUFFER=m.DEFAULT_SHUFFLE_BUFFER):
    d, ck = m.get_dataset(variant=variant, name=name, split=split, batch_size=each * D, process='ops', cache=cache, prefetch=prefetch, pre_filter_fn=flt, shuffle_seed=seed, data_dir=extra, **kw)
  ok('one source', len(log) == 1)
  a = dict(log[0])
  ok('the configured data set, split, seed and options', a.pop('name') is name and a.pop('split') is split and a.pop('shuffle_seed') is seed and a.pop('data_dir') is extra)
  ok('files are shuffled for training only', bool(a.pop('shuffle_files', False)) == (variant == 'train') and not a)
  steps = [s[0] for s in d.log]
  at = {s: steps.index(s) for s in steps}
  ok('examples are filtered exactly by a configured filter', steps.count('filter') == (flt is not None) and (flt is None or d.log[at['filter']][1] is flt and at['filter'] < at['map'] and at['filter'] < at.get('repeat', 99)))
  ok('every example is processed once, then batched', steps.count('map') == 1 and steps.count('batch') == 1 and at['map'] < at['batch'])
  ok('processed by the configured operations', d.log[at['map']][1]({'x': 1}).get('processed') is True)
  ok('nothing else happens to the examples', set(steps) <= {'filter', 'map', 'batch', 'shuffle', 'repeat', 'cache', 'prefetch', 'padding'})
  if variant == 'train':
    ok('training examples are repeated forever', steps.count('repeat') == 1 and d.log[at['repeat']][1] in (None, -1) and at['repeat'] < at['batch'])
    want = buf if kw else m.DEFAULT_SHUFFLE_BUFFER
    ok('and shuffled before batching with the configured buffer and seed', steps.count('shuffle') == 1 and d.log[at['shuffle']][1] is want and d.log[at['shuffle']][2] is seed and at['shuffle'] < at['batch'])
    ok('caches are finite', 'cache' not in at or cache == 'batched' or at['cache'] < at['repeat'])
    ok('not the order of one pass is cached', cache != 'loaded' or at.get('cache', -1) < at['shuffle'])
  else: ok('evaluation examples are neither shuffled nor repeated', 'shuffle' not in at and 'repeat' not in at)
  if prefetch in (None, 0): ok('prefetched only if asked', 'prefetch' not in at)
  ok('the iterator over these data', isinstance(d, Flow))


@contract('C37', functions=[f'{PIPE}.get_datasets', f'{PIPE}.get_data_num_examples'], max_paths=60)
def variants():
  m = loader.load(PIPE)
  class CD(Conf): pass
  if core.choose(2):
    names = ['train', 'val', 'x'][:core.choose(4)]
    cfgs = {v: CD(name=object(), prefetch_device=3, batch_size=7) if core.choose(2) else CD(name=object(), process='p') for v in names}
    broken = core.choose(2) if names else 0
    if broken: cfgs[names[-1]] = dict(name='x')
    before = {v: dict(c) for v, c in cfgs.items()}
    seen = {}
    def get(*, variant, **k):
      ok('each variant once', variant not in seen)
      seen[variant] = k
      return ('data', variant)
    with use(m, ml_collections=ns(ConfigDict=CD), get_dataset=get):
      try: r = m.get_datasets(CD(cfgs))
      except TypeError:
        ok('only variants without a configuration are rejected', broken); return
    ok('variants without a configuration are rejected', not broken)
    ok('one data set for every variant, from exactly its configuration', r == {v: ('data', v) for v in names} and seen == {v: {k: x for k, x in c.items() if k != 'prefetch_device'} for v, c in cfgs.items()})
    ok('configurations are not modified', {v: dict(c) for v, c in cfgs.items()} == before)
    return
  keep = dict(name=object(), split=object(), data_dir=object(), manual_dir=object(), try_gcs=object(), shuffle_seed=object(), ignore_errors=object())
  if core.choose(2): keep = {k: keep[k] for k in ('name', 'split')}
  drop = dict(variant=1, batch_size=2, process='p', cache=None, num_parallel_calls=3, prefetch=4, prefetch_device=5, shuffle_buffer=6, pre_filter_fn=len)
  if core.choose(2): drop = dict(batch_size=1)
  n = fresh_int('examples', 0)
  seen = []
  cfg = CD({**drop, **keep})
  def make(**k):
    seen.append(k)
    return ns(num_examples=n)
  with use(m, vmoe=ns(data=ns(builder=ns(get_dataset_builder=make)))):
    r = m.get_data_num_examples(cfg)
  obligation('the number of examples of the configured data set', term(r) == n.t)
  ok('counted with exactly the options of the data set', seen == [keep])
  ok('the configuration is not modified', dict(cfg) == {**drop, **keep})


@contract('C37', functions=[f'{PJIT}.get_dataset_shape_dtype_struct'], max_paths=60)
def announced():
  """Any shape, type, mesh and number of processes."""
  m = loader.load(PJIT)
  P, b, h = fresh_int('processes', 1), fresh_int('rows', 0), fresh_int('h', 0)
  axes = (object(), object())
  mesh, other = ns(axis_names=axes, empty=False), ns(axis_names=(object(),), empty=False)
  from_ctx = core.choose(2)
  class Spec(tuple): pass
  tf_type = ns(as_numpy_dtype='np_int32')
  rank = core.choose(3)
  specs = dict(x=ns(shape=(b, h, 5)[:rank + 1], dtype=tf_type), y=[ns(shape=(b, 3), dtype='float32')])
  with use(m, jax=Over(m.jax, process_count=lambda: P, ShapeDtypeStruct=lambda shape, dtype, sharding=None: ns(shape=shape, dtype=dtype, sharding=sharding),
                       sharding=ns(PartitionSpec=lambda *a: Spec(a), NamedSharding=lambda mesh, spec: ('sharding', mesh, spec))),
           pxla=ns(thread_resources=ns(env=ns(physical_mesh=mesh if from_ctx else other)))):
    r = m.get_dataset_shape_dtype_struct(ns(element_spec=specs), *([] if from_ctx else [mesh]))
  ok('the structure of a batch', set(r) == {'x', 'y'} and isinstance(r['y'], list) and len(r['y']) == 1)
  for s, g in ((specs['x'], r['x']), (specs['y'][0], r['y'][0])):
    ok('as many axes', len(g.shape) == len(s.shape))
    obligation('the rows of all processes', core.num(term(g.shape[0])) == term(b) * term(P))
    obligation('the other axes as they are', z3.And([core.num(term(u)) == core.num(term(v)) for u, v in zip(g.shape[1:], s.shape[1:])] or [z3.BoolVal(True)]))
    ok('the element type', g.dtype == ('np_int32' if s.dtype is tf_type else s.dtype))
    ok('rows split over all devices of the mesh', g.sharding[1] is mesh and list(g.sharding[2])[:1] == [axes] and all(a is None for a in g.sharding[2][1:]))
