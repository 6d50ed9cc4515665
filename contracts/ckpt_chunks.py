"""C07: chunks tile every array exactly once within the size limit
(vmoe/checkpoints/partitioned.py: _split_slicend, _shard_index_to_slicend,
_create_map_slicend_to_array_shards)."""
import z3
from vc import core, loader, loops, seqs
from vc.core import assume, obligation, fresh_int, term, wrap, decide
from vc.engine import contract

MOD = 'vmoe.checkpoints.partitioned'
loops.enable(MOD)


def mods():
  return loader.load(MOD), loader.load('vmoe.checkpoints.types')


def fresh_slicend(types, rank, name='s', empty=False):
  out = []
  for d in range(rank):
    lo = fresh_int(f'{name}{d}_start', 0)
    hi = lo + fresh_int(f'{name}{d}_size', 0 if empty else 1)
    out.append(types.Slice(lo, hi))
  return types.SliceNd(out)


def inside(x, sl):
  return z3.And(*[z3.And(xd >= term(s.start), xd < term(s.stop)) for xd, s in zip(x, sl)]) if len(x) else z3.BoolVal(True)


def tiling_obligations(tag, parent, chunks, limit):
  """chunks: list of SliceNd, or family. limit: None or int term."""
  rank = len(parent)
  x = [fresh_int(f'x{d}', s.start, s.stop).t for d, s in enumerate(parent)]
  if isinstance(chunks, list):
    obligation(f'{tag}-covers', z3.Or(*[inside(x, c) for c in chunks]))
    obligation(f'{tag}-disjoint', z3.And(*[z3.Not(z3.And(inside(x, a), inside(x, b))) for i, a in enumerate(chunks) for b in chunks[i + 1:]]))
    fam = [((), c) for c in chunks]
  else:
    p, c = chunks.arbitrary()
    q, d = chunks.arbitrary()
    # covering: the witness parameters are the quotients of x by the steps.
    wit = []
    for n in chunks.counts: wit.append(fresh_int('w', 0, n))
    cw = chunks.get(*wit)
    # find parameters dimension by dimension: a parameter that moves the start of axis k.
    cond = []
    for k, w in enumerate(wit):
      zero = [0] * len(wit)
      one = list(zero); one[k] = 1
      c0, c1 = chunks.get(*[wrap(z3.IntVal(v)) for v in zero]), chunks.get(*[wrap(z3.IntVal(v)) for v in one])
      for a in range(rank):
        if not z3.simplify(term(c0[a].start) == term(c1[a].start)).eq(z3.BoolVal(True)):
          step = z3.simplify(term(c1[a].start) - term(c0[a].start))
          cond.append((k, a, step))
    if len({k for k, _, _ in cond}) != len(wit): raise core.Unsupported('cannot read the parametrisation of the chunks')
    # existence: for each x there are w with w*step <= x - start < (w+1)*step and 0 <= w < n.
    qs = []
    for k, a, step in cond:
      qv = z3.Int(core.cur().fresh('q'))
      rv = z3.Int(core.cur().fresh('r'))
      # Euclidean division exists when the step is positive.
      obligation(f'{tag}-step-positive', step > 0)
      assume(z3.And(x[a] - term(parent[a].start) == qv * step + rv, rv >= 0, rv < step))
      qs.append((k, qv))
    w = dict(qs)
    args = [wrap(w[k]) for k in range(len(wit))]
    obligation(f'{tag}-covers', z3.And(inside(x, chunks.get(*args)), *[z3.And(w[k] >= 0, w[k] < term(n)) for k, n in enumerate(chunks.counts)]))
    for k, a, step in cond:   # instances of lemma_division_unique
      assume(division_unique(term(p[k]), term(q[k]), step, x[a] - term(parent[a].start)))
    eq = z3.And(*[term(a) == term(b) for a, b in zip(p, q)])
    obligation(f'{tag}-disjoint', z3.Implies(z3.And(inside(x, c), inside(x, d)), eq))
    fam = [(p, c)]
  for p, c in fam:
    obligation(f'{tag}-rank', z3.BoolVal(len(c) == rank))
    obligation(f'{tag}-inside-parent', z3.And(*[z3.And(term(s.start) >= term(t.start), term(s.stop) <= term(t.stop), term(s.start) < term(s.stop)) for s, t in zip(c, parent)]) if rank else z3.BoolVal(True))
    if limit is not None:
      size = z3.IntVal(1)
      for s in c: size = size * (term(s.stop) - term(s.start))
      obligation(f'{tag}-at-most-limit', size <= term(limit))


def division_unique(p, q, st, t):
  return z3.Implies(z3.And(st > 0, p * st <= t, t < p * st + st, q * st <= t, t < q * st + st), p == q)


@contract('C07')
def lemma_division_unique():
  p, q, st, t = [fresh_int(n).t for n in 'pqst']
  # by cases on the order of p and q, with the monotonicity of multiplication.
  obligation('q-greater', z3.Implies(z3.And(st > 0, q >= p + 1, p * st <= t, t < p * st + st), t < q * st))
  obligation('p-greater', z3.Implies(z3.And(st > 0, p >= q + 1, q * st <= t, t < q * st + st), t < p * st))


def _split(rank):
  m, types = mods()
  core.cur().linear_decide = True
  s = fresh_slicend(types, rank)
  lim = core.choose(2)
  if lim == 0:
    r = m._split_slicend(s, None)
    obligation('unlimited-keeps-shard', z3.BoolVal(isinstance(r, list) and len(r) == 1 and r[0] == s))
    return
  limit = fresh_int('max_chunk_items', 1)
  r = m._split_slicend(s, limit)
  tiling_obligations('chunks', s, r, limit)


@contract('C07', functions=['vmoe.checkpoints.partitioned._split_slicend'])
def split_rank0():
  _split(0)


@contract('C07', functions=['vmoe.checkpoints.partitioned._split_slicend'])
def split_rank1():
  _split(1)


@contract('C07', functions=['vmoe.checkpoints.partitioned._split_slicend'])
def split_rank2():
  _split(2)


@contract('C07', functions=['vmoe.checkpoints.partitioned._split_slicend'], thorough=True)
def split_rank3():
  _split(3)


@contract('C07', functions=['vmoe.checkpoints.partitioned._shard_index_to_slicend'])
def shard_index_to_slicend():
  """Every slice start/stop present or absent, ranks 0..3."""
  m, types = mods()
  rank = core.choose(4)
  shape, index, want = [], [], []
  for d in range(rank):
    n = fresh_int(f'dim{d}', 0)
    lo, hi = fresh_int(f'lo{d}', 0), fresh_int(f'hi{d}')
    assume(z3.And(lo.t <= hi.t, hi.t <= n.t))
    k = core.choose(4)
    index.append(slice(lo if k & 1 else None, hi if k & 2 else None, None))
    want.append((lo.t if k & 1 else z3.IntVal(0), hi.t if k & 2 else n.t))
    shape.append(n)
  r = m._shard_index_to_slicend(tuple(index), tuple(shape))
  obligation('same-rank', z3.BoolVal(len(r) == rank and isinstance(r, types.SliceNd)))
  obligation('same-elements', z3.And(z3.BoolVal(True), *[z3.And(term(s.start) == a, term(s.stop) == b) for s, (a, b) in zip(r, want)]))


class Dev:
  def __init__(self, p): self.process_index = p


class Shard:
  def __init__(self, index, p, i): self.index, self.device, self.id, self.data = index, Dev(p), i, None


class Arr:
  __vc_symbolic__ = True

  def __init__(self, shape, shards, itemsize):
    self.shape, self.global_shards = shape, shards
    self.dtype = type('D', (), {'itemsize': itemsize})()
    self.ndim = len(shape)


@contract('C07', functions=['vmoe.checkpoints.partitioned._create_map_slicend_to_array_shards'],
          max_paths=1500, bounded='at most 3 device shards (2 for rank 2), rank at most 2; any extents, chunk limit and item size')
def chunks_of_all_shards():
  """With _split_slicend replaced by its contract (chunks of the slice it is given
  under the limit it is given)."""
  m, types = mods()
  core.cur().sym_hash = True
  rank, k = [(1, 1), (1, 2), (2, 2), (1, 3)][core.choose(4)]
  itemsize = fresh_int('itemsize', 1)
  shape = tuple(fresh_int(f'dim{d}', 1) for d in range(rank))
  shards, sls = [], []
  for i in range(k):
    sl = fresh_slicend(types, rank, f's{i}_')
    for s, n in zip(sl, shape): assume(term(s.stop) <= n.t)
    # device shards are equal or disjoint (tilings of the array: jax contract).
    for o in sls:
      same = z3.And(*[z3.And(term(a.start) == term(b.start), term(a.stop) == term(b.stop)) for a, b in zip(sl, o)])
      dis = z3.Or(*[z3.Or(term(a.stop) <= term(b.start), term(b.stop) <= term(a.start)) for a, b in zip(sl, o)])
      assume(z3.Or(same, dis))
    sls.append(sl)
    shards.append(Shard(tuple(slice(s.start, s.stop) for s in sl), i, i))
  core.assumption('assumed: the device shards of one array have equal or disjoint index slices that cover the array (jax.sharding)')
  limited = core.choose(3)
  mcb = fresh_int('max_chunk_bytes', 1) if limited == 0 else (None if limited == 1 else 0)
  calls = []
  def split(slicend, limit=None):
    calls.append((slicend, limit))
    return [types.SliceNd([types.Slice(s.start, s.stop) for s in slicend])]
  old = m._split_slicend
  m._split_slicend = split
  try:
    r = m._create_map_slicend_to_array_shards(Arr(shape, shards, itemsize), mcb)
  finally:
    m._split_slicend = old
  for sl, lim in calls:
    if limited == 0:
      obligation('limit-within-bytes', z3.And(term(lim) >= 1, z3.Or(term(lim) * itemsize.t <= term(mcb), term(lim) == 1)))
    else:
      obligation('no-limit', z3.BoolVal(lim is None or (isinstance(lim, int) and lim < 1)))
  def eqsl(a, b): return z3.And(*[z3.And(term(x.start) == term(y.start), term(x.stop) == term(y.stop)) for x, y in zip(a, b)])
  items = list(r.items())
  for i in range(k):
    obligation('every-shard-chunked', z3.Or(*[eqsl(sls[i], key) for key, _ in items]))
  for key, shs in items:
    obligation('chunk-has-holders', z3.BoolVal(len(shs) > 0))
    obligation('holders-hold-the-data', z3.And(*[eqsl(sls[s.id], key) for s in shs]) if shs else z3.BoolVal(True))
    ids = [s.id for s in shs]
    obligation('all-holders-listed', z3.And(*[z3.Implies(eqsl(sls[i], key), z3.BoolVal(i in ids)) for i in range(k)]))
  for a in range(len(items)):
    for b in range(a):
      obligation('keys-distinct', z3.Not(eqsl(items[a][0], items[b][0])))
