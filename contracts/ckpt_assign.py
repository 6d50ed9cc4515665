"""C08: chunk-to-file assignment; C09: restoring (vmoe/checkpoints/partitioned.py)."""
import z3
from vc import core, loader, loops, seqs, tensor as T
from vc.core import assume, obligation, fresh_int, term, wrap, decide
from vc.engine import contract
from contracts.ckpt_chunks import mods, fresh_slicend, inside, Shard, Dev
from vc.loader import OVERRIDES

MOD = 'vmoe.checkpoints.partitioned'
loops.enable(MOD)


class Procs:
  """process_count/process_index: ghost integers of the current path."""


def _pc(*a): return core.cur().process_count
def _pi(*a): return core.cur().process_index


OVERRIDES['jax.process_count'] = _pc
OVERRIDES['jax.process_index'] = _pi


class SSet:
  """A set of integers given by a predicate."""
  __vc_symbolic__ = True

  def __init__(self, has): self.has = has
  def __contains__(self, x): return decide(self.has(term(x)))


def setup_procs():
  c = core.cur()
  c.process_count = fresh_int('process_count', 1)
  c.process_index = fresh_int('process_index', 0, c.process_count)
  c.owner = core.opaque_mod(c.process_count)   # the code computes file % process_count
  core.assumption('assumed: 0 <= jax.process_index() < jax.process_count(), the same count in every process')


@contract('C08', functions=['vmoe.checkpoints.partitioned._find_smallest_ckpt_shard'])
def smallest_eligible_file():
  """Any number of files, any loads, any set of processes."""
  m, _ = mods()
  setup_procs()
  pc = core.cur().process_count
  n = fresh_int('num_files', pc)
  load = z3.Function(core.cur().fresh('Load'), z3.IntSort(), z3.IntSort())
  holder = z3.Function(core.cur().fresh('Holder'), z3.IntSort(), z3.BoolSort())
  p0 = fresh_int('a_holder', 0, pc)
  assume(holder(p0.t))
  r = m._find_smallest_ckpt_shard(seqs.SSeq(n, lambda i: wrap(load(term(i)))), SSet(lambda t: holder(t)))
  t = term(r)
  obligation('file-exists', z3.And(t >= 0, t < n.t))
  obligation('written-by-a-holder', holder(core.cur().owner(t)))
  q = fresh_int('other_file', 0, n)
  obligation('fewest-bytes-among-eligible', z3.Implies(holder(core.cur().owner(q.t)), load(t) <= load(q.t)))


class GhostMap:
  """Dict with arbitrary keys identified by a ghost number."""
  __vc_symbolic__ = True

  def __init__(self, n, key, val): self.n, self.key, self.val = n, key, val
  def __vc_sorted__(self, key=None, reverse=False):
    if key is not None: raise core.Unsupported('sorted with a key')
    return seqs.SSeq(self.n, lambda i: self.key(i))
  def __getitem__(self, k): return self.val(k.ghost)
  def __vc_count__(self): return self.n
  def __vc_get__(self, i): return self.key(i)
  def items(self): return seqs.SSeq(self.n, lambda i: (self.key(i), self.val(i)))
  def keys(self): return self
  def __vc_list__(self): return seqs.SSeq(self.n, lambda i: self.key(i))


class GhostOut(dict):
  """Result dict at a loop cut point: keys 0..i-1 assigned by `owner`."""
  __vc_symbolic__ = True

  def __init__(self, count, owner):
    super().__init__()
    self.count, self.owner, self.new = count, owner, []
  def __setitem__(self, k, v): self.new.append((k, v))
  def __contains__(self, k): raise core.Unsupported('lookup')
  def __getitem__(self, k): raise core.Unsupported('lookup')


class GhostLoads:
  """bytes_per_ckpt_shard at a cut point (list with symbolic contents)."""
  __vc_symbolic__ = True

  def __init__(self, n, get): self.n, self.get = n, get
  def __vc_len__(self): return self.n
  def __vc_count__(self): return self.n
  def __vc_get__(self, i): return self.get(term(i))
  def __vc_enumerate__(self, s): return seqs.SSeq(self.n, lambda i: self.get(term(i))).__vc_enumerate__(s)
  def __getitem__(self, i): return self.get(term(i))
  def __setitem__(self, i, v):
    old, t, v = self.get, term(i), term(v)
    self.get = lambda j: wrap(z3.If(j == t, v, term(old(j))))


def _greedy_havoc(i, n, outer):
  g = core.cur().c08
  c = core.cur()
  f = z3.Function(c.fresh('LoadAt'), z3.IntSort(), z3.IntSort())
  own = z3.Function(c.fresh('OwnerAt'), z3.IntSort(), z3.IntSort())
  g['cut_load'] = f
  # The list object passed by the caller is updated in place: same object, new contents.
  b = g['loads']
  b.get = lambda j: wrap(f(j))
  d = GhostOut(i, own)
  g['out'] = d
  return {g['outname']: d, 'bytes_per_ckpt_shard': b}


def _greedy_inv(i, n, st):
  g = core.cur().c08
  d = st[g['outname']]
  pc = core.cur().process_count.t
  out = []
  j = z3.Int(core.cur().fresh('kj'))
  def ok(j, o): return z3.And(o >= 0, o < g['nfiles'].t, g['holder'](j, core.cur().owner(o)))
  if isinstance(d, GhostOut):
    if not d.new:
      out.append(('assigned-so-far-to-holders', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(i)), ok(j, d.owner(j))))))
      g['at'] = term(i)
    else:
      a = fresh_int('file', 0, g['nfiles'])
      it = g['at']
      out.append(('one-assignment-per-chunk', z3.BoolVal(len(d.new) == 1 and isinstance(d.new[0][0].ghost, core.SInt))))
      k, v = d.new[-1]
      out.append(('assigned-key-is-the-chunk', term(k.ghost) == it))
      out.append(('assigned-to-a-holder', ok(it, term(v))))
      out.append(('load-updated-by-chunk-bytes', term(g['loads'].get(a.t)) == g['cut_load'](a.t) + z3.If(a.t == term(v), g['bytes'](it), 0)))
  else:
    out.append(('starts-empty', z3.BoolVal(isinstance(d, dict) and len(d) == 0)))
  return out


loops.loop(MOD, '_create_map_slicend_to_checkpoint_shard#0', vars=('slicend_to_ckpt_shard', 'bytes_per_ckpt_shard'), havoc=_greedy_havoc, inv=_greedy_inv)


def _assign(rank):
  """Greedy loop, any number of chunks: keys in one fixed order, each assigned
  once to a file whose process holds it; loads grow by the bytes of the chunk."""
  m, types = mods()
  setup_procs()
  c = core.cur()
  n = fresh_int('num_chunks', 0)
  nf = fresh_int('num_files', c.process_count)
  holder = z3.Function(c.fresh('Holder'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
  nsh = z3.Function(c.fresh('NumShards'), z3.IntSort(), z3.IntSort())
  proc = z3.Function(c.fresh('ShardProcess'), z3.IntSort(), z3.IntSort(), z3.IntSort())
  lo = [z3.Function(c.fresh(f'Lo{d}'), z3.IntSort(), z3.IntSort()) for d in range(rank)]
  hi = [z3.Function(c.fresh(f'Hi{d}'), z3.IntSort(), z3.IntSort()) for d in range(rank)]
  L0 = z3.Function(c.fresh('Load0'), z3.IntSort(), z3.IntSort())
  itemsize = fresh_int('itemsize', 1)
  def key(i):
    k = types.SliceNd([types.Slice(wrap(lo[d](term(i))), wrap(hi[d](term(i)))) for d in range(rank)])
    k.ghost = wrap(term(i))
    return k
  def val(i): return ('shards-of', term(i))
  def bytes_(t):
    s = z3.IntVal(1)
    for d in range(rank): s = s * (hi[d](t) - lo[d](t))
    return s * itemsize.t
  loads = GhostLoads(nf, lambda j: wrap(L0(j)))
  c.c08 = dict(loads=loads, nfiles=nf, holder=holder, bytes=bytes_, outname='slicend_to_ckpt_shard')
  class ShardList:
    """The shards of chunk i: known through the set of their processes."""
    __vc_symbolic__ = True
    def __init__(self, i): self.i = term(i)
    def __vc_comp__(self, kind, cond, *fs):
      if cond is not None: raise core.Unsupported('filter')
      t = self.i
      p = z3.Int(c.fresh('proc'))
      class S: device = type('Dv', (), {'process_index': wrap(p)})()
      got = fs[0](S())
      if not (isinstance(got, core.SInt) and got.t.eq(p)): raise core.Unsupported('not the process index of the shards')
      return ProcSet(t)
  class ProcSet:
    __vc_symbolic__ = True
    def __init__(self, t): self.t = t
    def __vc_set__(self): return self
    def __vc_tuple__(self): return self
    def __vc_list__(self): return self
    def __vc_sorted__(self, key=None, reverse=False): return self
    def __contains__(self, x): return decide(holder(self.t, term(x)))
  amap = GhostMap(n, key, lambda i: ShardList(i))
  seen = []
  def smallest(b, processes):
    # contract of _find_smallest_ckpt_shard (proved above).
    obligation('callee-gets-the-current-loads', z3.BoolVal(b is loads))
    obligation('callee-gets-the-holders', z3.BoolVal(isinstance(processes, ProcSet)))
    r = fresh_int('chosen', 0, nf)
    assume(holder(processes.t, c.owner(r.t)))
    return r
  old = m._find_smallest_ckpt_shard
  m._find_smallest_ckpt_shard = smallest
  try:
    r = m._create_map_slicend_to_checkpoint_shard(amap, itemsize, loads)
  finally:
    m._find_smallest_ckpt_shard = old
  if isinstance(r, GhostOut):
    j = fresh_int('chunk', 0, n)
    o = r.owner(j.t)
    obligation('every-chunk-assigned-to-a-file-of-a-holder', z3.And(o >= 0, o < nf.t, holder(j.t, c.owner(o))))


@contract('C08', functions=['vmoe.checkpoints.partitioned._create_map_slicend_to_checkpoint_shard'])
def assignment_rank1(): _assign(1)


@contract('C08', functions=['vmoe.checkpoints.partitioned._create_map_slicend_to_checkpoint_shard'])
def assignment_rank3(): _assign(3)


@contract('C08', functions=['vmoe.checkpoints.partitioned._create_map_slicend_to_checkpoint_shard'])
def assignment_rank0(): _assign(0)


class Chunks:
  def __init__(self): self.added = []
  def add(self, index, data, local, glob): self.added.append((index, data, local, glob))


@contract('C08', functions=['vmoe.checkpoints.partitioned._update_lazy_array_chunks_with_leaf'],
          max_paths=1500, bounded='1 chunk with 2 holders (rank at most 2) or 2 chunks with 1 holder (rank 1); any offsets, processes and files')
def chunk_written_is_the_chunk():
  """The process that owns the file writes exactly the elements the chunk denotes."""
  m, types = mods()
  setup_procs()
  c = core.cur()
  c.sym_hash = c.linear_decide = True
  pc, me = c.process_count, c.process_index
  rank, nk = [(0, 1), (1, 1), (2, 1), (1, 2)][core.choose(4)]
  leaf = fresh_int('leaf', 0)
  to_shards, to_file, keys = {}, {}, []
  for k in range(nk):
    g = fresh_slicend(types, rank, f'g{k}_')
    for o in keys:
      assume(z3.Not(z3.And(*[z3.And(term(a.start) == term(b.start), term(a.stop) == term(b.stop)) for a, b in zip(g, o)])) if rank else z3.BoolVal(False))
    shs = []
    for j in range(2 if nk == 1 else 1):
      idx = []
      for s in g:
        if nk == 2 or core.choose(2) == 0:
          lo = fresh_int('shard_start', 0); assume(lo.t <= term(s.start)); idx.append(slice(lo, None))
        else: idx.append(slice(None, None))
      sh = Shard(tuple(idx), fresh_int(f'proc{k}{j}', 0, pc), (k, j))
      sh.data = ('data', k, j)
      shs.append(sh)
    f = fresh_int(f'file{k}', 0)
    own = z3.Or(*[term(s.device.process_index) == c.owner(f.t) for s in shs])
    assume(own)
    keys.append(g); to_shards[g] = shs; to_file[g] = f
  mine = {}
  class Files:
    def __getitem__(self, f):
      for (g, h) in mine.values():
        if g is f: return h
      h = Chunks(); mine[len(mine)] = (f, h)
      return h
  m._update_lazy_array_chunks_with_leaf(leaf, to_shards, to_file, Files())
  for k, g in enumerate(keys):
    f = to_file[g]
    got = [(i, d, l, gg) for (ff, h) in mine.values() if ff is f for (i, d, l, gg) in h.added]
    is_mine = z3.simplify(c.owner(f.t) == me.t)
    obligation('stored-once-by-the-owner-only', z3.If(is_mine, z3.BoolVal(len(got) == 1), z3.BoolVal(len(got) == 0)))
    for (i, d, l, gg) in got:
      sh = next(s for s in to_shards[g] if s.data == d)
      obligation('leaf-number', term(i) == leaf.t)
      obligation('data-is-local', term(sh.device.process_index) == me.t)
      obligation('listed-slice-is-the-chunk', z3.And(z3.BoolVal(len(gg) == rank), *[z3.And(term(a.start) == term(b.start), term(a.stop) == term(b.stop)) for a, b in zip(gg, g)]))
      st = [z3.IntVal(0) if ix.start is None else term(ix.start) for ix in sh.index]
      obligation('local-slice-addresses-the-chunk', z3.And(z3.BoolVal(len(l) == rank), *[z3.And(term(a.start) + o == term(b.start), term(a.stop) + o == term(b.stop)) for a, b, o in zip(l, g, st)]))


@contract('C09', functions=['vmoe.checkpoints.partitioned._intersect_slicend'])
def intersection_is_exact():
  """Ranks 0..3, any bounds (absent starts/stops on rank 1): the result contains
  exactly the common positions; None only when there are none."""
  m, types = mods()
  rank = core.choose(4)
  a, b, ab, bb = [], [], [], []
  for d in range(rank):
    for lst, bl, nm in ((a, ab, 'a'), (b, bb, 'b')):
      lo, hi = fresh_int(f'{nm}{d}lo', 0), fresh_int(f'{nm}{d}hi')
      assume(hi.t >= lo.t)
      k = core.choose(4) if rank == 1 else 0
      lst.append(types.Slice(None if k & 1 else lo, None if k & 2 else hi))
      bl.append((z3.IntVal(0) if k & 1 else lo.t, None if k & 2 else hi.t))
  r = m._intersect_slicend(types.SliceNd(a), types.SliceNd(b))
  x = [fresh_int(f'x{d}', 0).t for d in range(rank)]
  def isin(bl): return z3.And(z3.BoolVal(True), *[z3.And(v >= lo, *( [v < hi] if hi is not None else [])) for v, (lo, hi) in zip(x, bl)])
  both = z3.And(isin(ab), isin(bb))
  if r is None:
    obligation('none-only-when-disjoint', z3.Not(both))
  else:
    obligation('same-rank', z3.BoolVal(len(r) == rank and isinstance(r, types.SliceNd)))
    rb = [(z3.IntVal(0) if s.start is None else term(s.start), None if s.stop is None else term(s.stop)) for s in r]
    obligation('exactly-the-common-positions', both == isin(rb))
    obligation('not-empty', z3.And(z3.BoolVal(True), *[lo < hi for lo, hi in rb if hi is not None]))


def bounds(key, rank):
  """(start, stop) per axis of a numpy index, which must be plain slices."""
  key = key if isinstance(key, tuple) else (key,)
  if not all(isinstance(k, slice) and k.step in (None, 1) for k in key): raise core.Unsupported('index of a buffer')
  return [(term(k.start), term(k.stop)) for k in key]


class View:
  __vc_symbolic__ = True
  def __init__(self, chunk, key): self.chunk, self.key = chunk, key


class ChunkData:
  """Contents of a chunk read from a file: element at local offset l is Value(l)."""
  __vc_symbolic__ = True

  def __init__(self, name, sl): self.name, self.sl = name, sl
  def __getitem__(self, key): return View(self, bounds(key, len(self.sl)))


class Buffer:
  """Local numpy buffer: records the writes."""
  __vc_symbolic__ = True

  def __init__(self, sl): self.sl, self.writes = sl, []
  def __setitem__(self, key, v): self.writes.append((bounds(key, len(self.sl)), v))


@contract('C09', functions=['vmoe.checkpoints.partitioned._restore_local_buffers'], max_paths=3000,
          bounded='one array with one chunk and two buffers, or two chunks and one buffer, rank at most 2 (1 for two); any bounds')
def restore_copies_exactly_the_overlap():
  m, types = mods()
  c = core.cur()
  c.sym_hash = True
  rank, nc, nb = [(0, 1, 1), (1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1)][core.choose(5)]
  chunks = [fresh_slicend(types, rank, f'c{k}_', empty=True) for k in range(nc)]
  bufs = []
  for k in range(nb):
    s = fresh_slicend(types, rank, f'b{k}_', empty=True)
    for o in bufs:
      assume(z3.Not(z3.And(*[z3.And(term(p.start) == term(q.start), term(p.stop) == term(q.stop)) for p, q in zip(s, o)])))
    bufs.append(s)
  ac = types.ArrayChunks()
  datas = [ChunkData(k, s) for k, s in enumerate(chunks)]
  for dta, s in zip(datas, chunks): ac.add(0, dta, s)
  B = [Buffer(s) for s in bufs]
  base = loader.load('vmoe.checkpoints.base')
  old = base.restore_checkpoint
  names = []
  base.restore_checkpoint = lambda fp, tree=None: (names.append(fp), ac)[1]
  try:
    m._restore_local_buffers('FILE', [{s: b for s, b in zip(bufs, B)}])
  finally:
    base.restore_checkpoint = old
  obligation('reads-the-given-file', z3.BoolVal(names == ['FILE']))
  for b in B:
    # an arbitrary global position x of this buffer.
    x = [fresh_int(f'x{d}').t for d in range(rank)]
    for v, s in zip(x, b.sl): assume(z3.And(v >= term(s.start), v < term(s.stop)))
    for dta in datas:
      inchunk = z3.And(z3.BoolVal(True), *[z3.And(v >= term(s.start), v < term(s.stop)) for v, s in zip(x, dta.sl)])
      ws = [(kb, v) for kb, v in b.writes if isinstance(v, View) and v.chunk is dta]
      def hit(kb): return z3.And(z3.BoolVal(True), *[z3.And(v - term(s.start) >= lo, v - term(s.start) < hi) for v, s, (lo, hi) in zip(x, b.sl, kb)])
      obligation('every-common-position-written', z3.Implies(inchunk, z3.Or(*[hit(kb) for kb, _ in ws]) if ws else z3.BoolVal(False)))
      for kb, view in ws:
        obligation('only-common-positions-written', z3.Implies(hit(kb), inchunk))
        # the element written at x is the chunk element of the same global position.
        obligation('element-of-the-same-position', z3.Implies(hit(kb), z3.And(z3.BoolVal(len(kb) == rank and len(view.key) == rank), *[
            (v - term(s.start)) - lo + clo == v - term(cs.start) for v, s, cs, (lo, _), (clo, _) in zip(x, b.sl, dta.sl, kb, view.key)])))
        obligation('same-extent', z3.And(z3.BoolVal(True), *[z3.And(hi - lo == chi - clo, lo >= 0, clo >= 0) for (lo, hi), (clo, chi) in zip(kb, view.key)]))
    obligation('writes-come-from-chunks', z3.BoolVal(all(isinstance(v, View) for _, v in b.writes)))


class Shd:
  """A sharding known through its addressable index map."""
  def __init__(self, idx, shard_shape): self.idx, self.ss = idx, shard_shape
  def addressable_devices_indices_map(self, shape): return {i: ix for i, ix in enumerate(self.idx)}
  def shard_shape(self, shape): return self.ss


@contract('C09', functions=['vmoe.checkpoints.partitioned._find_ckpt_shards_to_restore'], max_paths=2000,
          bounded='at most 2 addressable shards and 2 chunks, rank at most 1; any bounds')
def every_needed_file_is_read():
  m, types = mods()
  core.cur().sym_hash = True
  rank, nd, nc = [(0, 1, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2)][core.choose(4)]
  shape = tuple(fresh_int(f'dim{d}', 0) for d in range(rank))
  idx, bnd = [], []
  for k in range(nd):
    one, bb = [], []
    for n in shape:
      lo, hi = fresh_int('lo', 0), fresh_int('hi')
      assume(z3.And(lo.t <= hi.t, hi.t <= n.t))
      kk = core.choose(2)
      one.append(slice(lo, hi) if kk == 0 else slice(None, None))
      bb.append((lo.t, hi.t) if kk == 0 else (z3.IntVal(0), n.t))
    idx.append(tuple(one)); bnd.append(bb)
  chunks = [fresh_slicend(types, rank, f'c{k}_', empty=True) for k in range(nc)]
  files = [fresh_int(f'file{k}', 0) for k in range(nc)]
  got = list(m._find_ckpt_shards_to_restore(Shd(idx, shape), shape, chunks, files))
  for bb in bnd:
    x = [fresh_int('x').t for _ in range(rank)]
    for ch, f in zip(chunks, files):
      common = z3.And(z3.BoolVal(True), *[z3.And(v >= lo, v < hi, v >= term(s.start), v < term(s.stop)) for v, (lo, hi), s in zip(x, bb, ch)])
      obligation('file-with-common-element-is-read', z3.Implies(common, z3.Or(*[term(g) == f.t for g in got]) if got else z3.BoolVal(False)))
  for g in got:
    obligation('only-files-of-the-index', z3.Or(*[term(g) == f.t for f in files]))


# -- the whole restore: which files are read, what the arrays are made of ------------
class InlinePool:
  """ThreadPool.map: the results in order, every item processed once, whatever the chunk size."""
  def map(self, f, items, chunksize=None): return [f(x) for x in items]
  def starmap(self, f, items, chunksize=None): return [f(*x) for x in items]


class Stat:
  def __init__(self, n): self.length = n


@contract('C09', functions=['vmoe.checkpoints.partitioned._restore_checkpoint_from_index'], max_paths=4000,
          bounded='at most 3 arrays and 4 files; any file sizes, any limit on concurrent bytes, any bounds')
def restore_reads_needed_files_and_assembles():
  import types as pt
  m, types = mods()
  jax = m.jax
  # which files each array needs (by the contract of _find_ckpt_shards_to_restore)
  need = [[], [[]], [[0]], [[0, 1], [1, 2]], [[3, 0], [], [2]], [[2, 1, 0, 3]], [[1], [1]]][core.choose(7)]
  k = len(need)
  limit = [None, 0, fresh_int('max_concurrent_bytes', 1)][core.choose(3)]
  lengths = {f: fresh_int(f'bytes{f}', 0) for f in range(4)}
  infos = [pt.SimpleNamespace(global_shape=pt.SimpleNamespace(shape=('shape', i), dtype=('dtype', i)), global_slices=('slices', i), shards=('files', i)) for i in range(k)]
  shs = [pt.SimpleNamespace(tag=i) for i in range(k)]
  names = ['c', 'a', 'b'][:k]
  index, sharding = dict(zip(names, infos)), dict(zip(names, shs))
  mism = k and core.choose(2)
  if mism: sharding = dict(list(sharding.items())[:-1]) if core.choose(2) else dict(sharding, zz=pt.SimpleNamespace(tag=99))
  bufs, reads, made = {}, [], {}

  def create(s, shape, dtype):
    i = s.tag
    obligation('buffers of the array of the same name', z3.BoolVal(shape == ('shape', i) and dtype == ('dtype', i)))
    bufs[i] = {('slicend', i): ('buffer', i)}
    return bufs[i]

  def find(s, shape, slices, shards):
    i = s.tag
    obligation('files sought for the array of the same name', z3.BoolVal(shape == ('shape', i) and tuple(slices) == ('slices', i) and tuple(shards) == ('files', i)))
    yield from need[i]

  def read(fpath, lb):
    obligation('read into the buffers of all arrays in index order', z3.BoolVal(len(lb) == k and all(lb[pos] is bufs[by_pos[pos]] for pos in range(k))))
    obligation('no array is made before all its files are read', z3.BoolVal(not made))
    reads.append(fpath)

  def make(shape, s, cb, **kw):
    i = s.tag
    obligation('array with the shape of its index entry', z3.BoolVal(shape == ('shape', i)))
    v = cb(('device index', i))
    made[i] = v
    return ('array', i)

  by_pos = [names.index(nm) for nm in sorted(names)]
  saved = {n: getattr(m, n) for n in ('_create_local_buffers', '_find_ckpt_shards_to_restore', '_restore_local_buffers', '_shard_index_to_slicend')}
  b = loader.load('vmoe.checkpoints.base')
  sb = b.gfile, b.add_shard_suffix
  m._create_local_buffers, m._find_ckpt_shards_to_restore, m._restore_local_buffers = create, find, read
  m._shard_index_to_slicend = lambda idx, shape: ('slicend', shape[1]) if idx[0] == 'device index' and idx[1] == shape[1] else None
  b.gfile = pt.SimpleNamespace(stat=lambda p: Stat(lengths[p[1]]))
  def suffix(path, i, n):
    obligation('data file of this checkpoint', z3.BoolVal(path == 'PREFIX.data' and n == 4))
    return ('file', i)
  b.add_shard_suffix = suffix
  OVERRIDES['jax.make_array_from_callback'] = make
  try:
    try: out = m._restore_checkpoint_from_index('PREFIX', 4, index, sharding, thread_pool=InlinePool(), max_concurrent_bytes=limit)
    except ValueError:
      obligation('refused only when the structures differ', z3.BoolVal(bool(mism)))
      return
  finally:
    for n, v in saved.items(): setattr(m, n, v)
    b.gfile, b.add_shard_suffix = sb
  obligation('different structures are refused', z3.BoolVal(not mism))
  obligation('every needed file is read', z3.BoolVal(set(reads) == {('file', f) for fs in need for f in fs}))
  obligation('every array made of its own buffer', z3.BoolVal(made == {i: ('buffer', i) for i in range(k)}))
  obligation('result has the structure of the index', z3.BoolVal(out == {nm: ('array', i) for i, nm in enumerate(names)}))
