"""C20, C21, C22: evaluation, padding of datasets, prefetching (vmoe/evaluate/evaluator.py, vmoe/data)."""
import types as _types
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from vc.seqs import SSeq
from contracts.train_step import use, key_type, fresh_key, split_key, St, Leaf, Obj, Cfg

MOD = 'vmoe.evaluate.evaluator'
BUILDER = 'vmoe.data.builder'
PIPE = 'vmoe.data.input_pipeline'
PJIT = 'vmoe.data.pjit_utils'
UTILS = 'vmoe.utils'
ns = _types.SimpleNamespace


# ------------------------------------------------------------------------ C20 ----
@contract('C20', functions=[f'{MOD}.evaluate_step', f'{MOD}.EvalState.update', f'{UTILS}.tree_rngs_split'], max_paths=60)
def one_batch():
  """Any batch, validity mask, labels, predictions and losses."""
  m = loader.load(MOD)
  u = loader.load(UTILS)
  c = core.cur()
  B, C, H = T.new_dim('examples'), T.new_dim('classes'), T.new_dim('H')
  valid = T.fresh_array('valid', (B,), 'bool') if core.choose(2) else T.fresh_array('validb', (B,), 'bool').astype('float32')
  labels, img, logits = T.fresh_array('labels', (B, C)), T.fresh_array('images', (B, H)), T.fresh_array('logits', (B, C))
  loss = T.fresh_array('loss', (B, *[C][:core.choose(2)]))
  pred = T.fresh_array('pred', (B,), 'int32')
  b_ = z3.Int(c.fresh('b'))
  p_ = term(pred.el((b_,)))
  assume(z3.ForAll([b_], z3.And(p_ >= 0, p_ < term(C))))
  n0, c0, l0 = fresh_real('num'), fresh_real('correct'), fresh_real('loss0')
  k = fresh_key('key')
  used, params = [], object()
  def apply_fn(v, x, rngs=None, **kw):
    obligation('the model gets the parameters and the images', z3.BoolVal(v == {'params': params} and x is img))
    used.append(rngs['k'])
    return logits, {}
  def loss_fn(a, b):
    obligation('loss of the outputs against the labels', z3.BoolVal(a is logits and b is labels))
    return loss
  def predict(a):
    obligation('predictions from the outputs', z3.BoolVal(a is logits))
    return pred
  with use(u, jax=Over(u.jax, random=Over(u.jax.random, split=split_key))), use(m, utils=u):
    st = m.EvalState(num=n0, sum_correct=c0, sum_loss=l0, rngs=dict(k=k))
    r = m.evaluate_step(st, params, img, labels, valid, apply_fn, loss_fn, predict)
  sc = lambda x: core.to_real(core.num(term(x)))
  vb = valid != 0
  obligation('counts the valid examples', sc(r.num) == n0.t + sc(T.reduce_sum(T.where(vb, 1., 0.), None)))
  per = T.reduce_sum(loss, tuple(range(1, loss.ndim))) if loss.ndim > 1 else loss
  obligation('adds the loss of the valid examples only', sc(r.sum_loss) == l0.t + sc(T.reduce_sum(T.where(vb, per, 0.), None)))
  # contribution of an example: its label at the predicted class.
  hit = T.elementwise(lambda p, c_: core.num(p) == core.num(c_), T.expand_dims(pred, 1), T.expand_dims(T.arange(C), 0), dtype='bool')
  # Three forms of the same sum (finite sums may be nested; a sum over classes with one non-zero term is that term).
  here = T.where(hit, labels, 0.)
  at = T.getitem(labels, (T.arange(B), pred))
  total = lambda x: c0.t + sc(T.reduce_sum(x, None))
  forms = [total(T.where(T.expand_dims(vb, 1), here, 0.)), total(T.where(vb, T.reduce_sum(here, (1,)), 0.)), total(T.where(vb, at, 0.))]
  core.assumption('assumed: a sum over examples and classes is the sum over examples of the sums over classes, which for a one-hot factor is the term of the predicted class')
  obligation('adds the label at the predicted class of the valid examples only', z3.Or(*[sc(r.sum_correct) == f for f in forms]))
  nxt = r.rngs['k']
  obligation('random state advances', z3.And(z3.BoolVal(len(used) == 1), nxt.t != used[0].t, nxt.t != k.t, used[0].t != k.t))


def ds_inv(i, n, st):
  c = core.cur()
  return [('state after the batches so far', st['eval_state'].t == c.E(term(i)))]


def ds_havoc(i, n, st): return dict(eval_state=Leaf(z3.Const(core.cur().fresh('evalstate'), Obj)))


loops.loop(MOD, 'evaluate_dataset#0', vars=('eval_state',), inv=ds_inv, havoc=ds_havoc)


@contract('C20', functions=[f'{MOD}.evaluate_dataset'])
def all_batches():
  """Any number of batches, each used once and in order."""
  m = loader.load(MOD)
  c = core.cur()
  I = z3.IntSort()
  c.E = z3.Function(c.fresh('StateAfter'), I, Obj)
  F = [z3.Function(c.fresh(n), I, Obj) for n in ('Image', 'Labels', 'Valid')]
  Step = z3.Function(c.fresh('Step'), Obj, Obj, Obj, Obj, Obj)
  n = fresh_int('batches', 0)
  params = object()
  j = z3.Int(c.fresh('j'))
  assume(z3.ForAll([j], z3.Implies(j >= 0, c.E(j + 1) == Step(c.E(j), *[f(j) for f in F])), patterns=[c.E(j + 1)]))
  def step(state, p, a, b, v):
    obligation('same parameters for every batch', z3.BoolVal(p is params))
    return Leaf(Step(state.t, a.t, b.t, v.t))
  ds = SSeq(n, lambda i: {'image': Leaf(F[0](term(i))), 'labels': Leaf(F[1](term(i))), m.VALID_KEY: Leaf(F[2](term(i)))})
  core.assumption('assumed: block_until_ready does not change values')
  with use(m, jax=Over(m.jax, tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: t), tree=Over(m.jax.tree, map=lambda f, t: t), block_until_ready=lambda t: t)):
    r = m.evaluate_dataset(eval_step_pjit=step, eval_state=Leaf(c.E(z3.IntVal(0))), dataset=ds, params=params)
  obligation('every batch was used once, in order', r.t == c.E(n.t))


@contract('C20', functions=[f'{MOD}.EvaluateMultipleDatasets._make_callback_fn', f'{MOD}.make_eval_step_pjit'])
def reported_metrics():
  """Each dataset starts from a fresh state; reported are the sums divided by the number of valid examples."""
  m = loader.load(MOD)
  names = ['val', 'test'][:1 + core.choose(2)]
  vals = {n: [fresh_real(f'{n}_{x}') for x in ('num', 'correct', 'loss')] for n in names}
  for v in vals.values(): assume(v[0].t > 0)
  resets, log, inits, steps = [], [], [], []
  class DS:
    def __init__(self, n): self.n = n
    def reset(self): resets.append(self.n)
  ds = {n: DS(n) for n in names}
  params = dict(w=object())
  class Pj:
    def lower(self, *a): steps.append(a); return self
    def compile(self): return self
  pj = Pj()
  def pjit_(fun=None, **k):
    if fun is not None and getattr(fun, 'func', None) is m.evaluate_step:
      obligation('evaluates with the given model, loss and prediction', z3.BoolVal(fun.keywords == dict(apply_fn='apply', loss_fn='loss', label_pred_fn='pred') and not fun.args))
      return pj
    return fun
  def evaluate(eval_step_pjit, eval_state, dataset, params):
    obligation('all totals start at zero', z3.And(*[core.num(term(getattr(eval_state, a))) == 0 for a in ('num', 'sum_correct', 'sum_loss')]))
    n = dataset[1]
    inits.append(n)
    v = vals[n]
    return St(num=v[0], sum_correct=v[1], sum_loss=v[2])
  class Mesh: empty = False
  mesh = Mesh()
  S = ns(ShapeDtypeStruct=lambda *a, **k: 'struct', eval_shape=lambda f: {}, sharding=Over(m.jax.sharding, NamedSharding=lambda *a: 'sharding'),
         tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: t))
  class W:
    def write_scalars(self, s, d): log.append((s, d))
  tstep = fresh_int('train_step', 0)
  extra = object()
  with use(m, jax=Over(m.jax, **S.__dict__), tree_map=lambda f, t: t, pjit=ns(pjit=pjit_), pjit_utils=ns(get_dataset_shape_dtype_struct=lambda d: {'image': 1, 'labels': 2, m.VALID_KEY: 3}),
           pxla=ns(thread_resources=ns(env=ns(physical_mesh=mesh))), utils=ns(make_rngs=lambda k, s: {}, get_flops_and_seconds_per_device=lambda f: (None, None)),
           evaluate_dataset=evaluate, get_dataset_iterator=lambda d, me: ('iter', d.n), time=ns(time=lambda: 0.)):
    cb = m.EvaluateMultipleDatasets._make_callback_fn(apply_fn='apply', loss_fn='loss', label_pred_fn='pred', datasets=ds, metric_writer=W(), rng_keys=(), seed=0, report_progress=None, report_progress_name='eval')
    cb(tstep, None, params, flops=extra, none=None)
  obligation('every dataset is evaluated once and reset', z3.BoolVal(sorted(inits) == sorted(names) and sorted(resets) == sorted(names)))
  s, d = log[-1]
  obligation('reported for the given step', term(s) == tstep.t)
  for n in names:
    v = vals[n]
    obligation('accuracy is correct predictions per valid example', core.to_real(core.num(term(d[f'{n}/prec@1']))) * v[0].t == v[1].t)
    obligation('loss is the mean over valid examples', core.to_real(core.num(term(d[f'{n}/loss']))) * v[0].t == v[2].t)
  obligation('further values passed on', z3.BoolVal(d.get('flops') is extra and 'none' not in d))


# ------------------------------------------------------------------------ C21 ----
@contract('C21', functions=[f'{BUILDER}._get_num_fake_examples'])
def padding_count():
  """Any number of processes, examples per process and batch size."""
  m = loader.load(BUILDER)
  c = core.cur()
  N = z3.Function(c.fresh('Examples'), z3.IntSort(), z3.IntSort())
  P, b = fresh_int('processes', 1), fresh_int('batch', 1)
  j = z3.Int(c.fresh('j'))
  assume(z3.ForAll([j], N(j) >= 0, patterns=[N(j)]))
  counts = SSeq(P, lambda i: wrap(N(term(i))), 'list')
  p, q = fresh_int('p', 0, P), fresh_int('q', 0, P)
  f = term(m._get_num_fake_examples(p, b, counts))
  g = term(m._get_num_fake_examples(q, b, counts))
  obligation('not negative', f >= 0)
  obligation('same number of examples on all processes', N(p.t) + f == N(q.t) + g)
  obligation('whole batches', (N(p.t) + f) % b.t == 0)
  big = z3.Exists([j], z3.And(j >= 0, j < P.t, N(j) > N(p.t) + f - b.t))
  obligation('the fewest batches that cover every process', big)
  obligation('no process has more examples', N(q.t) <= N(p.t) + f)


@contract('C21', functions=[f'{BUILDER}.TfdsBuilder.get_num_fake_examples', f'{BUILDER}.TfdsBuilder.as_dataset'])
def builder_padding():
  m = loader.load(BUILDER)
  c = core.cur()
  N = z3.Function(c.fresh('Examples'), z3.IntSort(), z3.IntSort())
  P = fresh_int('processes', 1)
  p = fresh_int('p', 0, P)
  b, want = fresh_int('batch', 1), fresh_int('fake', 0)
  j = fresh_int('j', 0, P)
  class Sub:
    def __init__(self, i): self.i = i
  class Splits:
    def __getitem__(self, s): return ns(num_examples=wrap(N(term(s.i))))
  def even(split, n, drop_remainder=False):
    obligation('one part per process, nothing dropped', z3.And(z3.BoolVal(split == 'validation' and drop_remainder is False), term(n) == P.t))
    return SSeq(n, lambda i: Sub(i), 'list')
  def fake(pi, bs, counts):
    obligation('of this process and batch size', z3.And(term(pi) == p.t, term(bs) == b.t))
    obligation('counts of all processes in order', z3.And(term(loader.b_len(counts)) == P.t, term(counts.get(j)) == N(j.t)))
    return want
  calls = []
  def for_process(split, process_index=None, process_count=None, drop_remainder=False):
    obligation('the part of this process, nothing dropped', z3.BoolVal(split == 'validation' and drop_remainder is False))
    return Sub(p)
  class B:
    info = ns(splits=Splits())
    def as_dataset(self, split=None, **k):
      obligation('reads the part of this process', term(split.i) == p.t)
      return ns(ignore_errors=lambda: 'data', tag='data')
  tf_ = ns(even_splits=even, split_for_jax_process=for_process, ReadConfig=lambda **k: k, decode=ns(SkipDecoding=lambda: None))
  core.assumption('assumed: tfds.split_for_jax_process(s) is the part number process_index of tfds.even_splits(s, process_count)')
  with use(m, jax=Over(m.jax, process_count=lambda: P, process_index=lambda: p), tfds=tf_, _get_tfds_builder=lambda *a: B(), _get_num_fake_examples=fake):
    t = m.TfdsBuilder(name='x', split='validation')
    r = t.get_num_fake_examples(b)
    obligation('the padding count is returned', term(r) == want.t)
    t.as_dataset()


class Data:
  """A tf.data.Dataset as a sequence: real examples first, then padding (counts are symbolic)."""
  __vc_symbolic__ = True
  def __init__(self, real, fake=0, endless=False, processed=None, batch=None, log=()):
    self.real, self.fake, self.endless, self.processed, self.batch_, self.log = real, fake, endless, processed, batch, tuple(log)
  def _new(self, what, **k): return Data(**{**dict(real=self.real, fake=self.fake, endless=self.endless, processed=self.processed, batch=self.batch_, log=self.log + (what,)), **k})
  element_spec = {'image': ns(shape=(2,), dtype='float32'), '__valid__': ns(shape=(), dtype='bool')}
  def cache(self, *a): return self._new('cache')
  def prefetch(self, n): return self._new('prefetch')
  def shuffle(self, n, seed=None, **k): return self._new('shuffle')
  def filter(self, f): raise core.Unsupported('filter')
  def map(self, map_func=None, *a, **k):
    obligation('processed before batching, once', z3.BoolVal(self.batch_ is None and self.processed is None))
    return self._new('map', processed=map_func)
  def repeat(self, n=None):
    if n is None: return self._new('repeat', endless=True)
    obligation('only padding is repeated', z3.And(term(self.real) == 0, term(self.fake) == 1))
    return self._new('repeat', fake=n)
  def concatenate(self, o):
    if self.endless: return self                   # nothing ever follows endless examples
    obligation('only padding is appended, to unbatched examples', z3.And(term(o.real) == 0, z3.BoolVal(self.batch_ is None and o.batch_ is None)))
    return self._new('concatenate', fake=wrap(core.num(term(self.fake)) + core.num(term(o.fake))))
  def batch(self, n, drop_remainder=False, **k): return self._new('batch', batch=(n, drop_remainder))


@contract('C21', functions=[f'{PIPE}.get_dataset', f'{PIPE}._compose_fns'], max_paths=200)
def evaluation_batches():
  """The evaluation pipeline of one process: any number of examples, processes, devices and batch size."""
  m = loader.load(PIPE)
  n, fake = fresh_int('examples', 0), fresh_int('fake', 0)
  P, D, bs = fresh_int('processes', 1), fresh_int('devices', 1), fresh_int('batch_size', 1)
  core.assumption('assumed: tf.data operations cache/prefetch/map/concatenate/batch keep the sequence of examples; contract of get_num_fake_examples (C21)')
  seen = {}
  class B:
    def as_dataset(self): return Data(n)
    def get_num_fake_examples(self, b):
      seen['b'] = b
      return fake
  def single(e):
    obligation('padding is marked as not valid', z3.BoolVal(e['__valid__'] == ('zeros', (), 'bool')))
    return Data(0, 1)
  tf_ = ns(zeros=lambda s, d: ('zeros', s, d), nest=ns(map_structure=lambda f, s: {k: f(v) for k, v in s.items()}),
           data=ns(Dataset=ns(from_tensors=single), experimental=ns(AUTOTUNE=-1)))
  proc = lambda d: {**d, 'processed': True}
  variant = ['val', 'test', 'train'][core.choose(3)]
  cache, prefetch = [(None, None), ('loaded', 2), ('batched', 'autotune')][core.choose(3)]
  opt = dict(prefetch=prefetch)
  with use(m, vmoe=ns(data=ns(builder=ns(get_dataset_builder=lambda **k: B()))), jax=Over(m.jax, process_count=lambda: P, device_count=lambda: D),
           tf=tf_, get_data_process_fn=lambda s: proc, TfDatasetIterator=lambda d, checkpoint=False: d):
    try: r = m.get_dataset(variant=variant, name='x', split='s', batch_size=bs, process='p', cache=cache, **opt)
    except ValueError:
      obligation('only batch sizes that do not divide evenly are rejected', z3.Or(term(bs % P) != 0, term(bs % D) != 0)); return
  obligation('batch sizes that do not divide evenly are rejected', z3.And(term(bs % P) == 0, term(bs % D) == 0))
  b, drop = r.batch_
  obligation('batches of the size of one process', z3.And(term(b) * P.t == bs.t, z3.BoolVal(drop is True)))
  if variant == 'train':
    obligation('training data are repeated forever, without padding', z3.And(z3.BoolVal(r.endless), term(r.fake) == 0)); return
  obligation('evaluation data are used once, in full batches, none is dropped', z3.And(z3.BoolVal(not r.endless), term(r.real) == n.t, core.num(term(r.fake)) == fake.t))
  obligation('padding for the batch size of one process', term(seen['b']) == term(b))
  out = r.processed({'image': 1})
  obligation('real examples are processed and valid', z3.BoolVal(out.get('processed') is True and out.get('__valid__') is True and out['image'] == 1))
  obligation('a given validity is kept', z3.BoolVal(r.processed({'image': 1, '__valid__': False})['__valid__'] is False))


# ------------------------------------------------------------------------ C22 ----
Item = core.sort('Item')


class Src:
  """The source iterator: N items, pos of them consumed."""
  __vc_symbolic__ = True
  def __init__(self, N, f): self.N, self.f, self.pos = N, f, z3.IntVal(0)
  def __iter__(self): return self
  def __vc_iter__(self): return self
  def _take(self, i):
    self.pos = self.pos0 + term(i) + 1
    return wrap(self.f(self.pos0 + term(i)))
  def __vc_count__(self):
    self.pos0 = self.pos
    return wrap(z3.simplify(self.N - self.pos))
  def __vc_get__(self, i): return self._take(i)
  def __next__(self):
    if decide(self.pos < self.N):
      x = self.f(self.pos)
      self.pos = self.pos + 1
      return wrap(x)
    raise StopIteration
  __vc_next__ = lambda self, *d: (self.__next__() if not d else _next_or(self, d[0]))


def _next_or(s, d):
  try: return s.__next__()
  except StopIteration: return d


class Slice_:
  __vc_symbolic__ = True
  def __init__(self, src, n): self.src, self.n = src, n
  def __vc_count__(self):
    s = self.src
    s.pos0 = s.pos
    rest, k = s.N - s.pos, term(self.n)
    self.cnt = z3.simplify(z3.If(k < rest, k, rest))
    return wrap(self.cnt)
  def __vc_get__(self, i): return self.src._take(i)


class Deque:
  """collections.deque of items."""
  __vc_symbolic__ = True
  def __init__(self, n=0, get=None): self.n, self.get = term(n), get
  def __bool__(self): return decide(self.n > 0)
  def __vc_len__(self): return wrap(self.n)
  def append(self, x):
    old, n = self.get, self.n
    self.get = lambda i: z3.If(i == n, x.t, old(i)) if old is not None else x.t
    self.n = z3.simplify(n + 1)
  def popleft(self):
    if not decide(self.n > 0): raise IndexError('pop from an empty deque')
    old = self.get
    x = old(z3.IntVal(0))
    self.get, self.n = (lambda i: old(i + 1)), z3.simplify(self.n - 1)
    return wrap(x)
  def extend(self, it):
    raise core.Unsupported('deque.extend')


def queue_inv(i, n, st):
  c = core.cur()
  q = st['queue'] if isinstance(st, dict) else st
  src, size = c.src, c.size
  ahead = c.y + size
  p = z3.If(ahead < src.N, ahead, src.N)
  j = z3.Int(c.fresh('j'))
  out = [('batches handed out', z3.And(c.y >= 0, c.y <= src.N)), ('source read ahead by at most the prefetch size', src.pos == p), ('queue holds what was read ahead', q.n == p - c.y)]
  if q.get is not None: out.append(('queue in source order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.n), q.get(j) == c.conv(src.f(c.y + j))))))
  else: out.append(('queue in source order', q.n == 0))
  return out


def queue_havoc(i, n, st):
  c = core.cur()
  c.y = z3.Int(c.fresh('yielded'))
  c.src.pos = z3.Int(c.fresh('pos'))
  Q = z3.Function(c.fresh('Queue'), z3.IntSort(), Item)
  return dict(queue=Deque(wrap(z3.Int(c.fresh('qlen'))), Q))


def fill_inv(i, n, st):
  c = core.cur()
  q, (n0, g0), p0 = st['queue'], c.fill, c.fill_pos
  j = z3.Int(c.fresh('j'))
  old = g0 or (lambda x: c.conv(c.src.f(x)))
  out = [('one item appended per item read', q.n == n0 + term(i)), ('source position', c.src.pos == p0 + term(i))]
  if q.get is not None: out.append(('appended in order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.n), q.get(j) == z3.If(j < n0, old(j), c.conv(c.src.f(p0 + j - n0)))))))
  else: out.append(('appended in order', q.n == 0))
  return out


def fill_havoc(i, n, st):
  c = core.cur()
  q = st['queue']
  Q = z3.Function(c.fresh('Filled'), z3.IntSort(), Item)
  q.n, q.get = z3.Int(c.fresh('qlen')), Q       # the queue belongs to the enclosing function: changed in place
  c.src.pos = z3.Int(c.fresh('pos'))
  return dict(queue=q)


def fill_entry(i, n, st):
  c = core.cur()
  if isinstance(i, int) and i == 0:
    q = st['queue']
    c.fill, c.fill_pos = (q.n, q.get), c.src.pos
  return fill_inv(i, n, st)


def plain_inv(i, n, st):
  c = core.cur()
  return [('every batch so far was handed out', c.y == term(i)), ('nothing is read ahead', c.src.pos == term(i))]


def plain_havoc(i, n, st):
  c = core.cur()
  c.y, c.src.pos = z3.Int(c.fresh('yielded')), z3.Int(c.fresh('pos'))
  return {}


loops.enable(BUILDER)
loops.loop(PJIT, 'prefetch_to_device#0', vars=('queue',), inv=queue_inv, havoc=queue_havoc)
loops.loop(PJIT, 'prefetch_to_device#1', inv=plain_inv, havoc=plain_havoc)
loops.loop(PJIT, 'prefetch_to_device.enqueue#0', inplace=('queue',), inv=fill_entry, havoc=fill_havoc)


def _stream(size, ahead):
  m = loader.load(PJIT)
  c = core.cur()
  N = fresh_int('batches', 0)
  f = z3.Function(c.fresh('Batch'), z3.IntSort(), Item)
  c.conv = z3.Function(c.fresh('OnDevice'), Item, Item)
  c.src, c.size, c.y = Src(N.t, f), ahead, z3.IntVal(0)
  class Mesh:
    empty, axis_names, local_devices = False, ('a',), ['d']
  put = lambda g, x: wrap(c.conv(x.t))
  jx = Over(m.jax, sharding=ns(PartitionSpec=lambda *a: None, NamedSharding=lambda *a: None), tree_util=Over(m.jax.tree_util, tree_map=put), tree=Over(m.jax.tree, map=put))
  core.assumption('assumed: itertools.islice(it, n) reads the next n items of it (or what is left), one per step')
  with use(m, jax=jx, collections=ns(deque=lambda *a: Deque()), itertools=Over(m.itertools, islice=lambda it, n: Slice_(it, n))):
    gen = m.prefetch_to_device(c.src, size, Mesh())
    for k in range(4):
      try: x = next(gen)
      except StopIteration:
        obligation('ends only after every batch', c.y == N.t); return
      obligation('each batch once and in order', z3.And(c.y < N.t, x.t == c.conv(f(c.y))))
      c.y = c.y + 1
      obligation('never more than the prefetch size ahead', c.src.pos <= c.y + c.size)


@contract('C22', functions=[f'{PJIT}.prefetch_to_device'], max_paths=100)
def prefetched_stream():
  """Any prefetch size and any number of batches."""
  s = fresh_int('size', 1)
  _stream(s, s.t)


@contract('C22', functions=[f'{PJIT}.prefetch_to_device'], max_paths=100)
def unprefetched_stream():
  """No prefetch size, zero or a negative one: nothing is read ahead."""
  k = core.choose(3)
  s = [None, 0, fresh_int('size')][k]
  if k == 2: assume(s.t <= 0)
  _stream(s, z3.IntVal(0))


@contract('C22', functions=[f'{PJIT}.put_to_devices', f'{PJIT}.prefetch_to_device'], max_paths=60)
def split_over_devices():
  """Any number of devices, processes and rows."""
  m = loader.load(PJIT)
  c = core.cur()
  D, Q, H = T.new_dim('devices'), T.new_dim('rows'), T.new_dim('H')
  P = fresh_int('processes', 1)
  x = T.fresh_array('x', (T.mkdim((*D.atoms, *Q.atoms)), *[H][:core.choose(2)]), 'float32')
  x.flavor = 'np'
  class Dev:
    def __init__(self, i): self.i = i
  class Mesh:
    empty, axis_names = False, ('a', 'b')
    local_devices = SSeq(D, lambda i: Dev(i), 'list')
  log = {}
  d, q = T.ivar(D.atoms[0], 'd'), T.ivar(Q.atoms[0], 'q')
  def make(shape, sharding, bufs):
    log.update(shape=shape, bufs=bufs, sharding=sharding, n=loader.b_len(bufs), part=bufs.get(wrap(d)) if isinstance(bufs, SSeq) else bufs[0])
    return 'global'
  jx = Over(m.jax, sharding=ns(PartitionSpec=lambda *a: ('spec', a), NamedSharding=lambda *a: a), process_count=lambda: P,
            device_put=lambda a, d: (a, d), make_array_from_single_device_arrays=make,
            tree_util=Over(m.jax.tree_util, tree_map=lambda g, t: {k: g(v) for k, v in t.items()}), tree=Over(m.jax.tree, map=lambda g, t: {k: g(v) for k, v in t.items()}))
  m.memoryview = lambda a: a
  mesh = Mesh()
  try:
    with use(m, jax=jx):
      out = list(m.prefetch_to_device(iter([dict(image=x)]), 0, mesh))
  finally: del m.memoryview
  obligation('the batch with its arrays', z3.BoolVal(out == [dict(image='global')]))
  obligation('sharded along the first axis over the whole mesh', z3.BoolVal(log['sharding'] == (mesh, ('spec', (('a', 'b'),)))))
  obligation('rows of all processes', z3.And(term(log['shape'][0]) == D.t * Q.t * P.t, *[term(a) == term(b) for a, b in zip(log['shape'][1:], x.shape[1:])]))
  obligation('one part per device', term(log['n']) == D.t)
  a, dev = log['part']
  obligation('in the order of the devices', term(dev.i) == d)
  rest = [(T.ivar(H.atoms[0], 'h'),)] * (x.ndim - 1)
  obligation('consecutive rows', z3.And(term(a.shape[0]) == Q.t, a.el(T.conv_digits((q,), Q.atoms, a.axes[0]), *rest) == x.el((d, q), *rest)))


@contract('C22', functions=[f'{PJIT}.put_to_devices'])
def uneven_rows_are_rejected():
  m = loader.load(PJIT)
  n, D = fresh_int('rows', 0), fresh_int('devices', 1)
  def split(a, k, axis=0):
    obligation('split along the first axis over the devices', z3.And(z3.BoolVal(a is x and axis == 0), term(k) == D.t))
    if not decide(n.t % D.t == 0): raise ValueError('array split does not result in an equal division')
    return SSeq(D, lambda i: i)
  x = ns(shape=(n,))
  core.assumption('assumed: numpy.split raises ValueError when the axis cannot be divided evenly')
  with use(m, np=Over(m.np, split=split), jax=Over(m.jax, device_put=lambda a, d: (a, d))):
    try:
      m.put_to_devices(x, SSeq(D, lambda i: i, 'list'))
      obligation('uneven sizes are rejected', n.t % D.t == 0)
    except ValueError: obligation('only uneven sizes are rejected', n.t % D.t != 0)
