"""C12: serialised checkpoint structures (vmoe/checkpoints/serialization.py, types.py).

msgpack is specified by its algebra: unpackb(packb(x)) is x with tuples turned into
lists and, with raw=True, text turned into bytes.  Everything else is the real code.
"""
import types as _types
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, fresh_bool, term, wrap, decide
from vc.engine import contract
from vc.seqs import SSeq

MOD = 'vmoe.checkpoints.serialization'
TYP = 'vmoe.checkpoints.types'
loops.enable(MOD)
loops.enable(TYP)


class Packed:
  """The bytes of packb(value)."""
  __vc_symbolic__ = True
  def __init__(self, v, bin_type): self.v, self.bin = v, bin_type
  def __vc_types__(self): return (bytes,)


class Name:
  """dtype.name, as text or (raw) bytes."""
  __vc_symbolic__ = True
  def __init__(self, d, raw=False): self.d, self.raw = d, raw
  def __vc_types__(self): return (bytes,) if self.raw else (str,)


class GDtype:
  __vc_symbolic__ = True
  def __init__(self, t): self.t = t
  @property
  def name(self): return Name(self)


def _unpack(v, raw):
  if isinstance(v, SSeq): return SSeq(v.n, lambda i: _unpack(v.get(i), raw), 'list')
  if isinstance(v, (list, tuple)): return [_unpack(x, raw) for x in v]
  if isinstance(v, dict): return {_unpack(k, raw): _unpack(x, raw) for k, x in v.items()}
  if isinstance(v, Name): return Name(v.d, raw)
  if isinstance(v, str): return v.encode() if raw else v
  if v is None or isinstance(v, (bool, int, float, core.SNum, Packed)): return v
  if isinstance(v, bytes): return v
  raise core.Unsupported(f'unpackb of {type(v).__name__}')


def _pack(v):
  if isinstance(v, SSeq): return SSeq(v.n, lambda i: _pack(v.get(i)), v.kind)
  if type(v) in (list, tuple): return type(v)(_pack(x) for x in v)
  if isinstance(v, tuple): return tuple(_pack(x) for x in v)
  if isinstance(v, dict): return {k: _pack(x) for k, x in v.items()}
  if v is None or isinstance(v, (bool, int, float, str, bytes, core.SNum, Packed, Name)): return v
  raise TypeError(f'can not serialize {type(v).__name__!r} object')


class Ext:
  __vc_symbolic__ = True
  def __init__(self, code, data):
    if not 0 <= int(code) <= 127: raise ValueError('code must be 0~127')
    self.code, self.data = code, data


class Msgpack:
  ExtType = Ext
  @staticmethod
  def packb(v, use_bin_type=True, **k):
    if k: raise core.Unsupported('packb options')
    return Packed(_pack(v), use_bin_type)
  @staticmethod
  def unpackb(b, raw=False, **k):
    if k: raise core.Unsupported('unpackb options')
    if not isinstance(b, Packed): raise core.Unsupported('unpackb of other bytes')
    if not b.bin: raise core.Unsupported('packed without use_bin_type')
    return _unpack(b.v, raw)


class GShaped:
  """jax.core.ShapedArray."""
  __vc_symbolic__ = True
  def __init__(self, shape, dtype, weak_type=False, **k):
    if k: raise core.Unsupported('ShapedArray arguments')
    self.shape, self.dtype, self.weak_type = shape, dtype, weak_type


def _dtype_from_name(n):
  if isinstance(n, Name) and n.raw: return n.d
  raise core.Unsupported('dtype from something else than the raw dtype name')


_tnew = tuple.__new__


class NdSeq(SSeq):
  """Instance of a tuple subclass with symbolic length."""
  def __init__(self, cls, n, get):
    super().__init__(n, get, 'tuple')
    self.cls = cls
  def __vc_types__(self): return (self.cls,)


def _tuple_new(cls, it=()):
  if isinstance(it, SSeq): return NdSeq(cls, it.n, it.get)
  return _tnew(cls, it)


def serial():
  loader.tuple_type.__dict__['__new__'] = _tuple_new
  m = loader.load(MOD)
  m.msgpack = Msgpack
  m.core = _types.SimpleNamespace(ShapedArray=GShaped)
  m._dtype_from_name = _dtype_from_name
  core.assumption('assumed: unpackb(packb(x)) is x with tuples as lists (text as bytes when raw); packing raises on other types')
  core.assumption('assumed: flax _dtype_from_name(dtype.name as bytes) is the dtype; ShapedArray keeps shape, dtype, weak_type')
  return m, loader.load(TYP)



def bound(name, k, i):
  """start/stop/step number k of slice i: absent or any integer."""
  c = core.cur()
  f = c.__dict__.setdefault('c12', {})
  if (name, k) not in f:
    f[(name, k)] = (z3.Function(c.fresh(f'{name}{k}none'), z3.IntSort(), z3.BoolSort()),
                    z3.Function(c.fresh(f'{name}{k}'), z3.IntSort(), z3.IntSort()))
  no, val = f[(name, k)]
  return None if decide(no(term(i))) else wrap(val(term(i)))


def a_slice(t, name='s', i=0): return t.Slice(*[bound(name, k, i) for k in range(3)])


def same_scalar(name, a, b):
  if a is None or b is None:
    obligation(name, z3.BoolVal(a is None and b is None))
  else:
    obligation(name, z3.And(core.same(a, b), z3.BoolVal(core.is_sym(a) == core.is_sym(b))))


def same_slice(t, tag, a, b):
  obligation(f'{tag} is a Slice', z3.BoolVal(type(b) is t.Slice))
  for k in ('start', 'stop', 'step'): same_scalar(f'{tag} {k}', getattr(a, k), getattr(b, k))


def count(x): return term(loader.b_len(x))


def elem(x, i): return x.get(i) if isinstance(x, SSeq) else x[i]


def same_nd(t, tag, a, b):
  obligation(f'{tag} is a SliceNd', z3.BoolVal(loader.b_isinstance(b, t.SliceNd)))
  obligation(f'{tag} rank', count(a) == count(b))
  i = fresh_int('axis', 0)
  if decide(i.t < count(a)): same_slice(t, f'{tag} axis', a.get(i), elem(b, i))


@contract('C12', functions=[f'{MOD}._slice_to_bytes', f'{MOD}._slice_from_bytes', f'{MOD}._msgpack_ext_pack', f'{MOD}._msgpack_ext_unpack', f'{TYP}.Slice'])
def slice_roundtrip():
  m, t = serial()
  s = a_slice(t)
  e = m._msgpack_ext_pack(s)
  obligation('encoded as an extension', z3.BoolVal(isinstance(e, Ext)))
  same_slice(t, 'slice', s, m._msgpack_ext_unpack(int(e.code), e.data))


def nd(t, name='s', shift=None):
  n = fresh_int('rank', 0)
  return t.SliceNd(SSeq(n, lambda i: a_slice(t, name, i if shift is None else wrap(term(i) + shift(term(i)))), 'list'))


@contract('C12', functions=[f'{MOD}._slice_nd_to_bytes', f'{MOD}._slice_nd_from_bytes', f'{TYP}.SliceNd.__new__'])
def slice_nd_roundtrip():
  """Any rank."""
  m, t = serial()
  s = nd(t)
  e = m._msgpack_ext_pack(s)
  obligation('encoded as an extension', z3.BoolVal(isinstance(e, Ext)))
  same_nd(t, 'slices', s, m._msgpack_ext_unpack(int(e.code), e.data))


def shaped():
  n = fresh_int('rank', 0)
  d = z3.Function(core.cur().fresh('dim'), z3.IntSort(), z3.IntSort())
  return GShaped(SSeq(n, lambda i: wrap(d(term(i))), 'tuple'), GDtype(core.fresh_obj('dtype', 'DType')), fresh_bool('weak'))


def same_shaped(tag, a, b):
  obligation(f'{tag} type', z3.BoolVal(isinstance(b, GShaped)))
  obligation(f'{tag} rank', count(a.shape) == count(b.shape))
  i = fresh_int('axis', 0)
  if decide(i.t < count(a.shape)): same_scalar(f'{tag} extent', a.shape.get(i), elem(b.shape, i))
  obligation(f'{tag} dtype', z3.BoolVal(b.dtype is a.dtype))
  obligation(f'{tag} weak type', core.as_z3bool(a.weak_type) == core.as_z3bool(b.weak_type))


@contract('C12', functions=[f'{MOD}._shaped_array_to_bytes', f'{MOD}._shaped_array_from_bytes'])
def shaped_array_roundtrip():
  m, t = serial()
  a = shaped()
  e = m._msgpack_ext_pack(a)
  obligation('encoded as an extension', z3.BoolVal(isinstance(e, Ext)))
  same_shaped('array description', a, m._msgpack_ext_unpack(int(e.code), e.data))


@contract('C12', functions=[f'{MOD}._index_info_to_bytes', f'{MOD}._index_info_from_bytes'])
def index_info_roundtrip():
  """Any number of chunks, any ranks."""
  m, t = serial()
  n, k = fresh_int('chunks', 0), fresh_int('shards', 0)
  sh = z3.Function(core.cur().fresh('shard'), z3.IntSort(), z3.IntSort())
  rk = z3.Function(core.cur().fresh('rank'), z3.IntSort(), z3.IntSort())
  pair = z3.Function(core.cur().fresh('pair'), z3.IntSort(), z3.IntSort(), z3.IntSort())
  def slices(j): return NdSeq(t.SliceNd, wrap(rk(term(j))), lambda i: a_slice(t, 's', wrap(pair(term(j), term(i)))))
  info = t.IndexInfo(global_shape=shaped(), global_slices=SSeq(n, slices, 'tuple'), shards=SSeq(k, lambda j: wrap(sh(term(j))), 'tuple'))
  e = m._msgpack_ext_pack(info)
  obligation('encoded as an extension', z3.BoolVal(isinstance(e, Ext)))
  r = m._msgpack_ext_unpack(int(e.code), e.data)
  obligation('an IndexInfo', z3.BoolVal(type(r) is t.IndexInfo))
  same_shaped('global shape', info.global_shape, r.global_shape)
  obligation('number of slices', count(r.global_slices) == n.t)
  obligation('number of shards', count(r.shards) == k.t)
  j = fresh_int('chunk', 0)
  if decide(j.t < k.t): same_scalar('shard', info.shards.get(j), elem(r.shards, j))
  if decide(j.t < n.t):
    assume(rk(j.t) >= 0)
    same_nd(t, 'global slice', info.global_slices.get(j), elem(r.global_slices, j))


@contract('C12', functions=[f'{MOD}._slice_nd_array_to_bytes', f'{MOD}._slice_nd_array_from_bytes', f'{TYP}.SliceNdArray.__new__'],
          bounded='arrays of at most 4 SliceNds in 6 shapes, ranks 0 to 2; any bounds present or absent', max_paths=600)
def slice_nd_array_roundtrip():
  import numpy as np
  m, t = serial()
  shape = [(), (0,), (1,), (2,), (2, 0), (2, 2)][core.choose(6)]
  n = int(np.prod(shape))
  a = np.empty(n, dtype=object)
  for k in range(n):
    # one arbitrary entry is fully symbolic, the others are told apart by number.
    a[k] = t.SliceNd(*([a_slice(t, 'e')] if k == n - 1 else [t.Slice(fresh_int('p'), fresh_int('q')), t.Slice()][:1 + k % 2]))
  a = a.reshape(shape).view(t.SliceNdArray)
  e = m._msgpack_ext_pack(a)
  obligation('encoded as an extension', z3.BoolVal(isinstance(e, Ext)))
  r = m._msgpack_ext_unpack(int(e.code), e.data)
  obligation('array type and shape', z3.BoolVal(type(r) is t.SliceNdArray and r.shape == shape))
  for x, y in zip(a.flat, r.flat):
    obligation('same rank', z3.BoolVal(len(x) == len(y) and type(y) is t.SliceNd))
    for s1, s2 in zip(x, y): same_slice(t, 'entry', s1, s2)


# -- chunks -----------------------------------------------------------------------
class Flat:
  """chunk.flatten(), or the piece [lo, hi) of it."""
  __vc_symbolic__ = True
  def __init__(self, base, lo, hi): self.base, self.lo, self.hi = base, lo, hi
  @property
  def size(self): return self.hi - self.lo
  @property
  def dtype(self): return self.base.dtype
  def __vc_len__(self): return self.size
  def __getitem__(self, s):
    if not isinstance(s, slice) or s.step not in (None, 1): raise core.Unsupported('indexing of a flat chunk')
    n = term(self.size)
    lo = term(0 if s.start is None else s.start)
    hi = n if s.stop is None else term(s.stop)
    if not decide(z3.And(lo >= 0, hi >= 0)): raise core.Unsupported('negative slice of a flat chunk')
    lo = z3.If(lo > n, n, lo); hi = z3.If(hi > n, n, hi); hi = z3.If(hi < lo, lo, hi)
    l0 = term(self.lo)
    return Flat(self.base, wrap(z3.simplify(l0 + lo)), wrap(z3.simplify(l0 + hi)))
  def reshape(self, *shape):
    shape = shape[0] if len(shape) == 1 else shape
    b = self.base
    obligation('whole chunk is reshaped', z3.And(term(self.lo) == 0, term(self.hi) == term(b.size)))
    obligation('rank of the chunk', count(shape) == count(b.gslice))
    i = fresh_int('axis', 0)
    if decide(i.t < count(b.gslice)):
      s = b.gslice.get(i)
      obligation('extent of the chunk', term(elem(shape, i)) == term(s.stop) - term(s.start))
    return b


class Chunk:
  """Data of one chunk: its element count is the product of its extents (assumed >= 0)."""
  __vc_symbolic__ = True
  def __init__(self, gslice):
    self.gslice = gslice
    self.size = fresh_int('size', 0)
    self.dtype = _types.SimpleNamespace(itemsize=fresh_int('itemsize', 1))
  def flatten(self, order='C'):
    # row-major whatever the memory layout; anything else depends on the layout
    if order != 'C': obligation('flattened in row-major order', z3.BoolVal(False))
    return Flat(self, 0, self.size)
  ravel = flatten
  def reshape(self, *s):
    if s in ((-1,), ((-1,),)): return self.flatten()
    raise core.Unsupported('reshape of a chunk')


class GArray:
  """Array from which local slices are taken."""
  __vc_symbolic__ = True
  ndim = property(lambda self: self.rank)


class LocalSlice:
  """local_slice.chunk(array) gives the chunk's data (SliceNd.chunk: see C08)."""
  __vc_symbolic__ = True
  def __init__(self, arr, data): self.arr, self.data = arr, data
  def chunk(self, a):
    obligation('sliced from its own array', z3.BoolVal(a is self.arr))
    return self.data


def concatenate(pieces, *a, **k):
  """np.concatenate of pieces of one flat chunk: the chunk, if they are consecutive."""
  if isinstance(pieces, list): pieces = SSeq(len(pieces), lambda i: pieces[i] if isinstance(i, int) else _pick(pieces, i))
  n = term(pieces.n)
  if decide(n <= 0): raise ValueError('need at least one array to concatenate')
  first = pieces.get(wrap(z3.IntVal(0)))
  last = pieces.get(wrap(z3.simplify(n - 1)))
  b = first.base
  j = fresh_int('piece', 0)
  if decide(j.t < n - 1):
    p, q = pieces.get(j), pieces.get(wrap(j.t + 1))
    obligation('pieces are consecutive', z3.And(term(p.hi) == term(q.lo), z3.BoolVal(p.base is b and q.base is b)))
  obligation('first piece starts at the beginning', term(first.lo) == 0)
  obligation('last piece ends at the end', term(last.hi) == term(b.size))
  return Flat(b, 0, b.size)


def _pick(l, i):
  for k, v in enumerate(l):
    if decide(term(i) == k): return v
  raise core.PathEnd()


@contract('C12', functions=[f'{MOD}._lazy_array_chunks_encode', f'{MOD}._array_chunks_decode', f'{TYP}.LazyArrayChunks', f'{TYP}.ArrayChunks'], max_paths=600)
def one_chunk_roundtrip():
  """One chunk of any size, rank, item size and position."""
  _chunks([1])


@contract('C12', functions=[f'{MOD}._lazy_array_chunks_encode', f'{MOD}._array_chunks_decode'],
          bounded='three arrays with 2, 0 and 1 chunks; sizes unbounded', max_paths=3000)
def several_chunks_roundtrip():
  _chunks([2, 0, 1], detailed=False)


def _chunks(counts, detailed=True):
  m, t = serial()
  c = core.cur()
  np_ = loader.proxy('numpy')
  m.np = _types.SimpleNamespace(concatenate=concatenate)
  core.assumption('assumed: flatten/reshape are row-major inverses; np.concatenate joins in order and rejects an empty list')
  m._MAX_CHUNK_SIZE = fresh_int('max_chunk_bytes', 1)
  lazy = t.LazyArrayChunks()
  want = {}
  for a, n in enumerate(counts):
    idx = [7, 0, 12][a]
    want[idx] = []
    if n == 0: lazy.chunks[idx] = []
    for k in range(n):
      rank = fresh_int('rank', 0)
      lo = z3.Function(c.fresh('lo'), z3.IntSort(), z3.IntSort()); hi = z3.Function(c.fresh('hi'), z3.IntSort(), z3.IntSort())
      g = NdSeq(t.SliceNd, rank, lambda i, lo=lo, hi=hi: t.Slice(wrap(lo(term(i))), wrap(hi(term(i)))))
      data, arr = Chunk(g), GArray()
      if not detailed: data.size = 0 if k else 1
      lazy.add(idx, arr, LocalSlice(arr, data), g)
      want[idx].append((data, g))
  enc = m._lazy_array_chunks_encode(lazy)
  obligation('recognisable when decoding', z3.BoolVal(isinstance(enc, dict) and all(isinstance(x, str) for x in enc)))
  out = m._array_chunks_decode(enc)
  obligation('an ArrayChunks', z3.BoolVal(type(out) is t.ArrayChunks))
  obligation('exactly the arrays with chunks', z3.BoolVal({i for i in out.chunks if out.chunks[i]} == {i for i in want if want[i]}))
  for idx in want:
    if not want[idx]: continue
    got = list(out.iter_chunks(idx))
    obligation('all chunks in order', z3.BoolVal([(id(a), id(b)) for a, b in got] == [(id(a), id(b)) for a, b in want[idx]]))
