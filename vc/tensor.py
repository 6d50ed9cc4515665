"""Symbolic tensors with symbolic shapes (the index calculus).

An axis is an ordered tuple of *atoms*; an atom is a dimension that is never
split further: either a Python int > 1 or a z3 integer term.  An index along the
axis is a tuple of digits (one per atom, most significant first), so that
reshape / transpose / flatten are exact regroupings of digits and never create
non-linear arithmetic.  An array is a function from digits to a z3 term.

Reductions, cumulative sums, sorts, top-k, ... become uninterpreted functions
with *contract lemmas* that are instantiated without quantifiers at proof time
(see prove()).  Every lemma used is an instance of a theorem about the
mathematical operation; they are listed in LEMMAS (and proved in lean/).
"""
import itertools
import math
import numpy as np
import z3

from vc import core
from vc.core import (Unsupported, SInt, SReal, SBool, SNum, Sym, cur, decide, wrap, term, num,
                     to_real, to_int, unify, zadd, zsub, zmul, zdiv)


# ----------------------------------------------------------------------------
# Dimensions.
# ----------------------------------------------------------------------------
def atom_key(a):
  return ('c', a) if isinstance(a, int) else ('t', a.get_id())


def akeys(atoms):
  return tuple(atom_key(a) for a in atoms)


def atom_term(a):
  return z3.IntVal(a) if isinstance(a, int) else a


class SDim(SInt):
  """A symbolic dimension with a known ordered factorisation into atoms."""
  __slots__ = ('atoms',)

  def __init__(self, atoms):
    atoms = tuple(a for a in atoms if not (isinstance(a, int) and a == 1))
    self.atoms = atoms
    t = None
    for a in atoms:
      a = atom_term(a)
      t = a if t is None else t * a
    super().__init__(t)

  def __mul__(self, o):
    if isinstance(o, SDim): return mkdim(self.atoms + o.atoms)
    if isinstance(o, int) and not isinstance(o, bool) and o >= 1: return mkdim(self.atoms + (o,))
    if isinstance(o, SInt): return mkdim(self.atoms + (o.t,))
    return SInt.__mul__(self, o)

  def __rmul__(self, o):
    if isinstance(o, int) and not isinstance(o, bool) and o >= 1: return mkdim((o,) + self.atoms)
    return SInt.__rmul__(self, o)

  def __floordiv__(self, o):
    r = _divide(self.atoms, dim_atoms_or_none(o))
    if r is not None: return mkdim(r)
    return SInt.__floordiv__(self, o)

  def __mod__(self, o):
    r = _divide(self.atoms, dim_atoms_or_none(o))
    if r is not None: return 0
    return SInt.__mod__(self, o)

  def _same(self, o):
    a = dim_atoms_or_none(o)
    return a is not None and sorted(akeys(a)) == sorted(akeys(self.atoms))

  def __eq__(self, o):
    if self._same(o): return True
    return SInt.__eq__(self, o)

  def __ne__(self, o):
    if self._same(o): return False
    return SInt.__ne__(self, o)

  __hash__ = Sym.__hash__


def mkdim(atoms):
  atoms = tuple(atoms)
  c = 1
  rest = []
  for a in atoms:
    if isinstance(a, int): pass
    elif isinstance(a, z3.ExprRef) and z3.is_int_value(a): a = a.as_long()
    rest.append(a)
  if all(isinstance(a, int) for a in rest):
    return math.prod(rest)
  return SDim(rest)


def dim_atoms_or_none(d):
  if isinstance(d, SDim): return d.atoms
  if isinstance(d, (bool,)): return None
  if isinstance(d, (int, np.integer)):
    d = int(d)
    if d == 1: return ()
    return (d,) if d > 1 else None
  if isinstance(d, SInt):
    t = d.t
    return _term_atoms(t)
  return None


def _term_atoms(t):
  """Factorisation of a product term into atoms (in order)."""
  if z3.is_int_value(t):
    v = t.as_long()
    return () if v == 1 else (v,) if v > 1 else (t,)
  if z3.is_mul(t):
    out = ()
    for c in t.children():
      out += _term_atoms(c)
    return out
  return (t,)


def dim_atoms(d):
  r = dim_atoms_or_none(d)
  if r is None:
    if isinstance(d, int) and d == 0:
      return (0,)
    raise Unsupported(f'dimension {d!r}')
  return r


def _divide(a, b):
  """Atoms of a / b if b divides a syntactically, else None."""
  if b is None: return None
  a = list(a)
  coef_a = math.prod([x for x in a if isinstance(x, int)])
  coef_b = math.prod([x for x in b if isinstance(x, int)])
  rest = [x for x in a if not isinstance(x, int)]
  for x in b:
    if isinstance(x, int): continue
    for i, y in enumerate(rest):
      if atom_key(x) == atom_key(y):
        del rest[i]; break
    else:
      return None
  if coef_a % coef_b: return None
  c = coef_a // coef_b
  return tuple(([c] if c != 1 else []) + rest)


def new_dim(name, lo=1):
  """A fresh atomic symbolic dimension (>= lo)."""
  v = z3.Int(cur().fresh(name))
  cur().pc.append(v >= lo)
  return SDim((v,))


def dim_term(d):
  return d.t if isinstance(d, Sym) else z3.IntVal(int(d))


# ----------------------------------------------------------------------------
# Index variables.
# ----------------------------------------------------------------------------
def add_cand(atom, t):
  c = cur()
  lst = c.cands.setdefault(atom_key(atom), [])
  if not any(t.eq(x) for x in lst):
    lst.append(t)


def in_range(digits, atoms):
  out = []
  for d, a in zip(digits, atoms):
    out += [d >= 0, d < atom_term(a)]
  return z3.And(*out) if out else z3.BoolVal(True)


def ivar(atom, name='i'):
  """Fresh index variable over an atom (in range)."""
  c = cur()
  v = z3.Int(c.fresh(name))
  c.ivars[v.get_id()] = (v, atom)
  c.pc.append(in_range([v], [atom]))
  add_cand(atom, v)
  return v


def bvar(atom, name='b'):
  """Bound (placeholder) index variable: in range, but no candidate."""
  c = cur()
  v = z3.Int(c.fresh(name))
  c.ivars[v.get_id()] = (v, atom)
  c.placeholders.add(v.get_id())
  return v


def ivars_for(atoms, name='i'):
  return tuple(ivar(a, name) for a in atoms)


# ----------------------------------------------------------------------------
# Terms helpers.
# ----------------------------------------------------------------------------
def free_consts(e, cache=None):
  out = {}
  seen = set()
  stack = [e]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen: continue
    seen.add(i)
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out[i] = x
    stack.extend(reversed(x.children()))
  return out


def canonical(body, gens, amb):
  """Body with generic and ambient index variables renamed canonically."""
  c = core.cur()
  pairs = [(v, z3.Int(f'_g{i}')) for i, v in enumerate(gens)]
  pairs += [(v, z3.Int(f'_a{i}_{atom_key(c.ivars[v.get_id()][1])}')) for i, v in enumerate(amb)]
  return subst(body, pairs)


def subst(e, pairs):
  pairs = [(a, b) for a, b in pairs if not a.eq(b)]
  return z3.substitute(e, *pairs) if pairs else e


def lex_lt(p, qd):
  """Lexicographic order on digit tuples of the same axis (= order of positions)."""
  if not p: return z3.BoolVal(False)
  return z3.Or(p[0] < qd[0], z3.And(p[0] == qd[0], lex_lt(p[1:], qd[1:]))) if len(p) > 1 else p[0] < qd[0]


def eq_digits(p, qd):
  return z3.And(*[a == b for a, b in zip(p, qd)]) if p else z3.BoolVal(True)


def linear(digits, atoms):
  """Position along the axis as an integer term."""
  c = cur()
  t = None
  for d, a in zip(digits, atoms):
    t = d if t is None else t * atom_term(a) + d
  if t is None:
    return z3.IntVal(0)
  if len(atoms) > 1:
    c.linmap[t.get_id()] = (t, tuple(digits), akeys(atoms))
  return t


def digits_of(t, atoms):
  """Digits of an integer index term along an axis (t must be in range)."""
  c = cur()
  if not atoms: return ()
  if len(atoms) == 1: return (t,)
  hit = c.linmap.get(t.get_id())
  if hit is not None and hit[2] == akeys(atoms):
    return hit[1]
  out = []
  for a in reversed(atoms[1:]):
    a = atom_term(a)
    out.append(t % a)
    t = t / a
  return tuple([t] + out[::-1])


# ----------------------------------------------------------------------------
# Dtypes.
# ----------------------------------------------------------------------------
class DType:
  __vc_symbolic__ = True

  def __init__(self, name, kind, itemsize):
    self.name, self.kind, self.itemsize = name, kind, itemsize

  def __repr__(self): return self.name
  def __eq__(self, o):
    return dtype_of(o) is self if not isinstance(o, DType) else o is self
  def __hash__(self): return hash(self.name)
  def __call__(self, x):
    return cast_scalar(x, self)
  @property
  def dtype(self): return self
  @property
  def type(self): return self


DTYPES = {n: DType(n, k, s) for n, k, s in [
    ('bool', 'b', 1), ('int8', 'i', 1), ('int16', 'i', 2), ('int32', 'i', 4), ('int64', 'i', 8),
    ('uint8', 'u', 1), ('uint32', 'u', 4), ('uint64', 'u', 8), ('bfloat16', 'f', 2), ('float16', 'f', 2),
    ('float32', 'f', 4), ('float64', 'f', 8), ('object', 'O', 8)]}


def dtype_of(x):
  if x is None: return None
  if isinstance(x, DType): return x
  x = getattr(x, '_real', x) if isinstance(x, type) else x
  if x is bool or isinstance(x, (bool, SBool)): return DTYPES['bool']
  if x is int or isinstance(x, (int, SInt)): return DTYPES['int32']
  if x is float or isinstance(x, (float, SReal)): return DTYPES['float32']
  if x is object: return DTYPES['object']
  if isinstance(x, str) and x in DTYPES: return DTYPES[x]
  if isinstance(x, str) and x == 'bool_': return DTYPES['bool']
  if isinstance(x, SArr): return x.dtype
  if isinstance(x, np.generic) or isinstance(x, np.dtype) or (isinstance(x, type) and issubclass(x, np.generic)):
    n = np.dtype(x).name if not isinstance(x, np.generic) else x.dtype.name
    if n in DTYPES: return DTYPES[n]
  raise Unsupported(f'dtype {x!r}')


_RANK = {'b': 0, 'u': 1, 'i': 1, 'f': 2}


def promote(a, b):
  if a.kind == 'O' or b.kind == 'O': return DTYPES['object']
  if _RANK[a.kind] != _RANK[b.kind]: return a if _RANK[a.kind] > _RANK[b.kind] else b
  return a if a.itemsize >= b.itemsize else b


def cast_term(t, dt, src=None):
  k = dt.kind
  if k == 'f':
    t = to_real(t)
    if dt.itemsize == 2 and (src is None or src.kind == 'f' and src.itemsize > 2):
      f = z3.Function(f'round_{dt.name}', z3.RealSort(), z3.RealSort())
      return f(t)
    return t
  if k in 'iu':
    if t.sort() == z3.RealSort():
      # truncation towards zero.
      return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    return to_int(t)
  if k == 'b':
    if t.sort() == z3.BoolSort(): return t
    return t != (z3.IntVal(0) if t.sort() == z3.IntSort() else z3.RealVal(0))
  return t


def cast_scalar(x, dt):
  if isinstance(x, SArr): return x.astype(dt)
  return wrap(cast_term(term(x), dt, dt))


def kind_sort(dt):
  r = {'f': z3.RealSort, 'i': z3.IntSort, 'u': z3.IntSort, 'b': z3.BoolSort}.get(dt.kind)
  return r() if r is not None else core.sort('Obj')


# ----------------------------------------------------------------------------
# Theory functions (uninterpreted, with contract lemmas).
# ----------------------------------------------------------------------------
class TheoryFn:
  """decl(params..) with a body over the same params, and a lemma generator."""

  def __init__(self, decl, params, kind, **kw):
    self.decl, self.params, self.kind = decl, params, kind
    self.__dict__.update(kw)

  def bind(self, e, args):
    return subst(e, list(zip(self.params, args)))


def _ctx_init(c):
  if not hasattr(c, 'linmap'):
    c.linmap = {}
    c.placeholders = set()
    c.tindex = {}


_old_cur = core.cur


def _ensure():
  c = core.cur()
  _ctx_init(c)
  return c


_orig_init = core.Ctx.__init__


def _init(self, *a, **k):
  _orig_init(self, *a, **k)
  _ctx_init(self)


core.Ctx.__init__ = _init


def theory_fn(base, kind, bound, bodies, rng, **kw):
  """Creates an uninterpreted function of all index variables free in bodies.

  bound: bound variables that are *not* parameters (reduction variables).
  bodies: z3 expressions that determine the function.
  Returns (decl_app_fn, TheoryFn): parameters are the free index variables.
  """
  c = _ensure()
  bound_ids = {b.get_id() for b in bound}
  params = {}
  for e in bodies:
    for i, x in free_consts(e).items():
      if i in c.ivars and i not in bound_ids:
        params[i] = x
  params = list(params.values())
  name = c.fresh(base)
  decl = z3.Function(name, *([p.sort() for p in params] + [rng]))
  tf = TheoryFn(decl, params, kind, bound=tuple(bound), **kw)
  c.theory[name] = tf
  return tf


# ----------------------------------------------------------------------------
# Arrays.
# ----------------------------------------------------------------------------
class SArr:
  """A symbolic array."""
  __array_priority__ = 1000
  __array_ufunc__ = None
  flavor = 'jax'

  def __init__(self, axes, fn, dtype, tag=None):
    self.axes = tuple(tuple(a) for a in axes)
    self.fn = fn
    self.dtype = dtype_of(dtype)
    self.tag = tag
    self.sharding = None

  # -- basics.
  @property
  def shape(self):
    return tuple(mkdim(a) for a in self.axes)

  @property
  def ndim(self):
    return len(self.axes)

  @property
  def size(self):
    return mkdim([x for a in self.axes for x in a])

  @property
  def aval(self): return self

  @property
  def weak_type(self): return False

  def el(self, *idx):
    """Element term at digit tuples idx (one per axis)."""
    assert len(idx) == len(self.axes), (idx, self.axes)
    idx = [tuple(i) if isinstance(i, (tuple, list)) else (i,) for i in idx]
    for i, a in zip(idx, self.axes):
      assert len(i) == len(a), (idx, self.axes)
    return self.fn(tuple(idx))

  def at_lin(self, *pos):
    """Element term at integer positions (one per axis)."""
    return self.el(*[digits_of(term(p), a) for p, a in zip(pos, self.axes)])

  def __vc_scalar__(self):
    if self.ndim != 0:
      raise Unsupported('array used as a scalar')
    return self.fn(())

  def __repr__(self):
    return f'SArr{self.shape}:{self.dtype}'

  def __len__(self):
    if not self.axes: raise TypeError('len() of unsized object')
    d = self.shape[0]
    if isinstance(d, int): return d
    raise Unsupported('len of symbolic dimension')

  def __vc_len__(self):
    if not self.axes: raise TypeError('len() of unsized object')
    return self.shape[0]

  def __iter__(self):
    if not self.axes: raise TypeError('iteration over a 0-d array')
    d = self.shape[0]
    if isinstance(d, int):
      return iter([self[i] for i in range(d)])
    raise Unsupported('iteration over a symbolic dimension')

  def __bool__(self):
    if self.ndim == 0:
      t = self.fn(())
      return decide(t if t.sort() == z3.BoolSort() else t != 0)
    raise ValueError('The truth value of an array is ambiguous.')

  def __index__(self):
    t = z3.simplify(self.__vc_scalar__())
    if z3.is_int_value(t): return t.as_long()
    raise Unsupported('symbolic 0-d array used as index')

  def __hash__(self): return id(self)
  def block_until_ready(self): return self
  def copy_to_host_async(self): return None
  def copy(self): return self

  def item(self):
    return wrap(self.__vc_scalar__())

  def astype(self, dt, copy=None):
    dt = dtype_of(dt)
    src = self.dtype
    if src is dt: return self
    return SArr(self.axes, lambda i: cast_term(self.fn(i), dt, src), dt)

  # -- arithmetic.
  def _bin(self, o, op, dt=None, rev=False):
    if isinstance(o, (list, tuple)) or o is None or isinstance(o, str): return NotImplemented
    o = asarr(o)
    a, b = (o, self) if rev else (self, o)
    return elementwise(op, a, b, dtype=dt)

  def __add__(self, o): return self._bin(o, op_add)
  def __radd__(self, o): return self._bin(o, op_add, rev=True)
  def __sub__(self, o): return self._bin(o, zsub)
  def __rsub__(self, o): return self._bin(o, zsub, rev=True)
  def __mul__(self, o): return self._bin(o, op_mul)
  def __rmul__(self, o): return self._bin(o, op_mul, rev=True)
  def __truediv__(self, o): return self._bin(o, zdiv, dt='float32')
  def __rtruediv__(self, o): return self._bin(o, zdiv, dt='float32', rev=True)
  def __floordiv__(self, o): return self._bin(o, core.zfloordiv)
  def __rfloordiv__(self, o): return self._bin(o, core.zfloordiv, rev=True)
  def __mod__(self, o): return self._bin(o, core.zmod)
  def __rmod__(self, o): return self._bin(o, core.zmod, rev=True)
  def __pow__(self, o): return self._bin(o, core.zpow)
  def __rpow__(self, o): return self._bin(o, lambda a, b: core.zpow(b, a))
  def __matmul__(self, o): return matmul(self, o)
  def __rmatmul__(self, o): return matmul(o, self)
  def __neg__(self): return SArr(self.axes, lambda i: -num(self.fn(i)), self.dtype if self.dtype.kind != 'b' else 'int32')
  def __pos__(self): return self
  def __abs__(self): return absolute(self)
  def __invert__(self):
    if self.dtype.kind == 'b': return SArr(self.axes, lambda i: z3.Not(self.fn(i)), 'bool')
    return SArr(self.axes, lambda i: -self.fn(i) - 1, self.dtype)
  def __and__(self, o): return self._bin(o, op_and)
  def __rand__(self, o): return self._bin(o, op_and)
  def __or__(self, o): return self._bin(o, op_or)
  def __ror__(self, o): return self._bin(o, op_or)
  def __lt__(self, o): return self._bin(o, cmp(lambda a, b: a < b), dt='bool')
  def __le__(self, o): return self._bin(o, cmp(lambda a, b: a <= b), dt='bool')
  def __gt__(self, o): return self._bin(o, cmp(lambda a, b: a > b), dt='bool')
  def __ge__(self, o): return self._bin(o, cmp(lambda a, b: a >= b), dt='bool')
  def __eq__(self, o):
    if o is None or isinstance(o, str): return False
    return self._bin(o, cmp(lambda a, b: a == b), dt='bool')
  def __ne__(self, o):
    if o is None or isinstance(o, str): return True
    return self._bin(o, cmp(lambda a, b: a != b), dt='bool')

  # -- shape ops.
  def reshape(self, *shape, order='C'):
    if order != 'C': raise Unsupported('reshape order')
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
    return reshape(self, shape)

  def ravel(self, order='C'): return reshape(self, (-1,))
  flatten = ravel

  def transpose(self, *axes):
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))): axes = axes[0]
    return transpose(self, axes or None)

  @property
  def T(self): return transpose(self, None)
  @property
  def mT(self): return swapaxes(self, -1, -2)

  def swapaxes(self, a, b): return swapaxes(self, a, b)
  def squeeze(self, axis=None): return squeeze(self, axis)
  def repeat(self, n, axis=None): return repeat(self, n, axis)

  # -- reductions.
  def sum(self, axis=None, dtype=None, keepdims=False, **k): return reduce_sum(self, axis, dtype, keepdims, **k)
  def mean(self, axis=None, dtype=None, keepdims=False): return reduce_mean(self, axis, keepdims)
  def max(self, axis=None, keepdims=False): return reduce_max(self, axis, keepdims)
  def min(self, axis=None, keepdims=False): return reduce_min(self, axis, keepdims)
  def all(self, axis=None, keepdims=False): return reduce_all(self, axis, keepdims)
  def any(self, axis=None, keepdims=False): return reduce_any(self, axis, keepdims)
  def cumsum(self, axis=None, dtype=None): return cumsum(self, axis, dtype)
  def argsort(self, axis=-1, **k): return argsort(self, axis, **k)
  def argmax(self, axis=None): return argmax(self, axis)

  # -- indexing.
  def __getitem__(self, key): return getitem(self, key)

  @property
  def at(self): return _At(self)


class _At:
  def __init__(self, a): self.a = a
  def __getitem__(self, key): return _AtIdx(self.a, key)


class _AtIdx:
  def __init__(self, a, key): self.a, self.key = a, key
  def add(self, u, **k): return scatter(self.a, self.key, u, 'add', **k)
  def set(self, u, **k): return scatter(self.a, self.key, u, 'set', **k)
  def get(self, **k):
    if k.get('mode') not in (None, 'clip', 'promise_in_bounds', 'fill'): raise Unsupported(f'at.get({k})')
    if k.get('mode') == 'fill': return getitem(self.a, self.key, fill=k.get('fill_value', 0))
    return getitem(self.a, self.key)


def op_add(a, b):
  if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort(): return z3.Or(a, b)
  return zadd(a, b)


def op_mul(a, b):
  if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort(): return z3.And(a, b)
  for x, y in ((a, b), (b, a)):
    if x.sort() == z3.BoolSort():
      y0 = z3.IntVal(0) if y.sort() == z3.IntSort() else z3.RealVal(0)
      return z3.If(x, y, y0)
  return zmul(a, b)


def op_and(a, b):
  if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort(): return z3.And(a, b)
  raise Unsupported('bitwise and')


def op_or(a, b):
  if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort(): return z3.Or(a, b)
  raise Unsupported('bitwise or')


def cmp(op):
  def f(a, b):
    if a.sort() != b.sort(): a, b = unify(a, b)
    if a.sort() == z3.BoolSort() :
      if op is not None:
        try: return op(a, b)
        except TypeError: pass
      a, b = to_int(a), to_int(b)
    return op(a, b)
  return f


def from_numpy(x):
  x = np.asarray(x)
  if x.dtype == object:
    data = x
    def fn(idx):
      pos = []
      for d, s in zip(idx, x.shape):
        t = z3.simplify(d[0]) if d else z3.IntVal(0)
        if not z3.is_int_value(t): raise Unsupported('symbolic index into object array')
        pos.append(t.as_long())
      return data[tuple(pos)]
    return SArr([dim_atoms(s) for s in x.shape], fn, 'object')
  dt = dtype_of(x.dtype)
  def fn(idx):
    cur_level = x
    def rec(arr, idx):
      if not idx: return core.q(arr.item())
      d = z3.simplify(idx[0][0]) if idx[0] else z3.IntVal(0)
      if z3.is_int_value(d): return rec(arr[d.as_long()], idx[1:])
      out = rec(arr[-1], idx[1:])
      for j in range(arr.shape[0] - 2, -1, -1):
        out = z3.If(d == j, rec(arr[j], idx[1:]), out)
      return out
    return rec(x, list(idx))
  return SArr([dim_atoms(s) for s in x.shape], fn, dt)


def asarr(x, dtype=None):
  if isinstance(x, SArr):
    return x.astype(dtype) if dtype is not None else x
  if isinstance(x, (bool, int, float, SNum)) or isinstance(x, np.generic):
    t = term(x)
    dt = dtype_of(dtype) if dtype is not None else dtype_of(x)
    t = cast_term(t, dt, dt)
    return SArr((), lambda i: t, dt)
  if isinstance(x, np.ndarray):
    r = from_numpy(x)
    return r.astype(dtype) if dtype is not None else r
  if isinstance(x, (list, tuple)):
    r = stack([asarr(e, dtype) for e in x], 0)
    return r
  if hasattr(x, '__vc_array__'):
    return asarr(x.__vc_array__(), dtype)
  raise Unsupported(f'asarray of {type(x).__name__}')


def same_axis(a, b):
  return akeys(a) == akeys(b)


def _ax_dim(a):
  return mkdim(a)


def broadcast_axes(axes_list):
  n = max(len(a) for a in axes_list)
  out = []
  for k in range(1, n + 1):
    cand = None
    for axes in axes_list:
      if k > len(axes): continue
      a = axes[-k]
      if a == (): continue
      if cand is None: cand = a
      elif not same_axis(cand, a):
        if sorted(akeys(cand)) == sorted(akeys(a)):
          # same size, different digit order: convert through positions.
          continue
        if decide(dim_term(mkdim(cand)) == dim_term(mkdim(a))):
          continue
        da, dc = dim_term(mkdim(a)), dim_term(mkdim(cand))
        if decide(da == 1):
          continue
        if decide(dc == 1):
          cand = a; continue
        raise TypeError(f'incompatible shapes for broadcasting: {mkdim(cand)} vs {mkdim(a)}')
    out.append(cand or ())
  return tuple(out[::-1])


def conv_digits(d, src, dst):
  """Digits d along axis atoms src, as digits along dst (same size)."""
  if same_axis(src, dst): return d
  if dst == (): return ()
  return digits_of(linear(d, src), dst)


def bidx(idx, axes, out_axes):
  """Index for an operand with `axes` from an index over broadcast out_axes."""
  off = len(out_axes) - len(axes)
  res = []
  for k, a in enumerate(axes):
    d, oa = idx[off + k], out_axes[off + k]
    if a == (): res.append(())
    elif same_axis(a, oa): res.append(d)
    else:
      # sizes equal on this path, or a is 1 on this path.
      if sorted(akeys(a)) != sorted(akeys(oa)):
        eq = z3.simplify(dim_term(mkdim(a)) == dim_term(mkdim(oa)))
        r, _ = core._check(cur().pc + [z3.Not(eq)], 2000)
        if r != z3.unsat:
          res.append(tuple(z3.IntVal(0) for _ in a)); continue
      res.append(conv_digits(d, oa, a))
  return tuple(res)


def elementwise(op, *arrs, dtype=None):
  arrs = [asarr(a) for a in arrs]
  axes = broadcast_axes([a.axes for a in arrs])
  if dtype is None:
    dt = arrs[0].dtype
    for a in arrs[1:]: dt = promote(dt, a.dtype)
  else:
    dt = dtype_of(dtype)
  def fn(idx):
    return op(*[a.fn(bidx(idx, a.axes, axes)) for a in arrs])
  return SArr(axes, fn, dt)


def lift1(op, dtype=None):
  def f(x, *a, **k):
    if isinstance(x, (SNum, int, float)) : return wrap(op(term(x)))
    x = asarr(x)
    return SArr(x.axes, lambda i: op(x.fn(i)), dtype or x.dtype)
  return f


absolute = lift1(lambda t: z3.If(num(t) >= 0, num(t), -num(t)))
sign = lift1(lambda t: z3.If(t > 0, core._zero(t) + 1, z3.If(t < 0, core._zero(t) - 1, core._zero(t))))


def _uf(name):
  f = z3.Function(name, z3.RealSort(), z3.RealSort())
  return lambda t: f(to_real(t))


exp = lift1(_uf('exp'), 'float32')
log = lift1(_uf('log'), 'float32')
sqrt = lift1(_uf('sqrt'), 'float32')
rsqrt = lift1(_uf('rsqrt'), 'float32')
square = lift1(lambda t: t * t)


def where(c, x=None, y=None):
  if x is None: raise Unsupported('where with one argument')
  c, x, y = asarr(c), asarr(x), asarr(y)
  dt = promote(x.dtype, y.dtype)
  def op(c, x, y):
    x, y = unify(x, y) if x.sort() != y.sort() else (x, y)
    c = cast_term(c, DTYPES['bool'])
    return z3.If(c, x, y)
  return elementwise(op, c, x, y, dtype=dt)


def minimum(a, b):
  return elementwise(cmp(lambda x, y: z3.If(x <= y, x, y)), a, b)


def maximum(a, b):
  return elementwise(cmp(lambda x, y: z3.If(x >= y, x, y)), a, b)


def clip(x, a_min=None, a_max=None, min=None, max=None):
  lo = a_min if a_min is not None else min
  hi = a_max if a_max is not None else max
  if lo is not None: x = maximum(x, lo)
  if hi is not None: x = minimum(x, hi)
  return asarr(x)


# -- shapes ------------------------------------------------------------------
def _norm_axis(a, n):
  a = int(a)
  if not -n <= a < n: raise ValueError(f'axis {a} out of bounds for ndim {n}')
  return a % n


def reshape(x, shape):
  x = asarr(x)
  if not isinstance(shape, (tuple, list)): shape = (shape,)
  shape = list(shape)
  src = [(i, j, a) for i, ax in enumerate(x.axes) for j, a in enumerate(ax)]
  total = [a for _, _, a in src]
  neg = [k for k, s in enumerate(shape) if isinstance(s, (int, np.integer)) and not isinstance(s, bool) and s == -1]
  # Resolve -1 lazily while matching (it takes what is left in its position).
  if len(neg) > 1: raise ValueError('only one -1 allowed in reshape')
  known = [None if k in neg else dim_atoms(s) for k, s in enumerate(shape)]
  if neg:
    left = tuple(total)
    for kn in known:
      if kn is None: continue
      r = _divide(left, kn)
      if r is None:
        raise Unsupported(f'reshape {x.shape} -> {shape}: cannot resolve -1')
      left = r
    known[neg[0]] = None
    want_neg = left
  # Match atoms in order; axis k takes a run of source atoms whose product
  # equals its dimension; integer atoms may be split.
  groups = _match_groups(total, known, want_neg if neg else None)
  if groups is not None:
    new_axes, plan = groups
    def fn(idx):
      # plan: for each source atom, list of (new axis, digit pos, radix) to combine
      srcd = []
      for parts in plan:
        t = None
        for (k, j, r) in parts:
          d = idx[k][j]
          t = d if t is None else t * r + d
        srcd.append(t)
      out, p = [], 0
      for ax in x.axes:
        out.append(tuple(srcd[p:p + len(ax)])); p += len(ax)
      return x.fn(tuple(out))
    return SArr(new_axes, fn, x.dtype)
  # General case: same number of elements, positions through div / mod.
  if neg: raise Unsupported(f'reshape {x.shape} -> {shape}')
  n_src = dim_term(x.size); n_dst = dim_term(mkdim([a for k in known for a in k]))
  if not decide(n_src == n_dst):
    raise TypeError(f'cannot reshape array of shape {x.shape} into shape {shape}')
  new_axes = [tuple(k) for k in known]
  flat_src = tuple(total)
  flat_dst = tuple(a for k in known for a in k)
  def fn(idx):
    pos = linear(tuple(d for i in idx for d in i), flat_dst)
    ds = digits_of(pos, flat_src)
    out, p = [], 0
    for ax in x.axes:
      out.append(tuple(ds[p:p + len(ax)])); p += len(ax)
    return x.fn(tuple(out))
  return SArr(new_axes, fn, x.dtype)


def _match_groups(total, known, want_neg):
  """Splits the ordered source atoms into the target axes. None if misaligned."""
  src = list(total)
  plan = [[] for _ in total]      # per source atom: [(axis, digit position, radix)]
  new_axes = []
  pos = 0
  rem = None                      # remaining factor of a partially consumed int atom
  def mults(ms):
    return sorted(akeys(ms))
  for k, want in enumerate(known):
    w = list(want if want is not None else want_neg)
    want_ms = [a for a in w]
    ax = []
    coef = math.prod([a for a in want_ms if isinstance(a, int)])
    syms = [a for a in want_ms if not isinstance(a, int)]
    while coef != 1 or syms:
      if pos >= len(src): return None
      a = src[pos] if rem is None else rem
      if isinstance(a, int):
        if coef == 1:
          return None
        if coef % a == 0:
          plan[pos].append((k, len(ax), a)); ax.append(a)
          coef //= a; pos += 1; rem = None
        elif a % coef == 0:
          # split the integer atom: most significant part goes here.
          plan[pos].append((k, len(ax), coef)); ax.append(coef)
          rem = a // coef; coef = 1
        else:
          return None
      else:
        for i, s in enumerate(syms):
          if atom_key(s) == atom_key(a):
            del syms[i]; break
        else:
          return None
        plan[pos].append((k, len(ax), None)); ax.append(a)
        pos += 1
    new_axes.append(tuple(ax))
  if pos != len(src) or rem is not None: return None
  return new_axes, plan


def transpose(x, axes=None):
  x = asarr(x)
  n = x.ndim
  axes = tuple(range(n))[::-1] if axes is None else tuple(_norm_axis(a, n) for a in axes)
  if sorted(axes) != list(range(n)): raise ValueError(f'axes {axes} do not match array of ndim {n}')
  def fn(idx):
    src = [None] * n
    for k, a in enumerate(axes): src[a] = idx[k]
    return x.fn(tuple(src))
  return SArr([x.axes[a] for a in axes], fn, x.dtype)


def swapaxes(x, a, b):
  x = asarr(x)
  p = list(range(x.ndim)); a, b = _norm_axis(a, x.ndim), _norm_axis(b, x.ndim)
  p[a], p[b] = p[b], p[a]
  return transpose(x, p)


def moveaxis(x, src, dst):
  x = asarr(x); n = x.ndim
  src = [src] if not isinstance(src, (tuple, list)) else list(src)
  dst = [dst] if not isinstance(dst, (tuple, list)) else list(dst)
  src = [_norm_axis(s, n) for s in src]; dst = [_norm_axis(d, n) for d in dst]
  order = [i for i in range(n) if i not in src]
  for d, s in sorted(zip(dst, src)): order.insert(d, s)
  return transpose(x, order)


def expand_dims(x, axis):
  x = asarr(x)
  axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
  n = x.ndim + len(axes)
  axes = sorted(_norm_axis(a, n) for a in axes)
  new = []
  it = iter(x.axes)
  for k in range(n): new.append(() if k in axes else next(it))
  def fn(idx): return x.fn(tuple(d for k, d in enumerate(idx) if k not in axes))
  return SArr(new, fn, x.dtype)


def squeeze(x, axis=None):
  x = asarr(x)
  if axis is None: axes = [k for k, a in enumerate(x.axes) if a == ()]
  else:
    axes = [_norm_axis(a, x.ndim) for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
    for a in axes:
      if x.axes[a] != (): raise ValueError('cannot squeeze axis of size != 1')
  keep = [k for k in range(x.ndim) if k not in axes]
  def fn(idx):
    src = [()] * x.ndim
    for d, k in zip(idx, keep): src[k] = d
    return x.fn(tuple(src))
  return SArr([x.axes[k] for k in keep], fn, x.dtype)


def broadcast_to(x, shape):
  x = asarr(x)
  axes = [dim_atoms(s) for s in shape]
  ax = broadcast_axes([x.axes, axes])
  if len(x.axes) > len(axes): raise ValueError('broadcast_to: too many dims')
  for a, b in zip(ax, axes):
    if sorted(akeys(a)) != sorted(akeys(b)) and not decide(dim_term(mkdim(a)) == dim_term(mkdim(b))):
      raise ValueError('broadcast_to: incompatible')
  return SArr(axes, lambda idx: x.fn(bidx(idx, x.axes, tuple(tuple(a) for a in axes))), x.dtype)


def repeat(x, n, axis=None, total_repeat_length=None):
  x = asarr(x)
  if axis is None: x, axis = reshape(x, (-1,)), 0
  axis = _norm_axis(axis, x.ndim)
  if isinstance(n, SArr): raise Unsupported('repeat with array counts')
  na = dim_atoms(n)
  axes = list(x.axes); axes[axis] = x.axes[axis] + na
  m = len(x.axes[axis])
  def fn(idx):
    idx = list(idx); idx[axis] = idx[axis][:m]
    return x.fn(tuple(idx))
  return SArr(axes, fn, x.dtype)


def tile(x, reps):
  x = asarr(x)
  reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
  n = max(len(reps), x.ndim)
  while x.ndim < n: x = expand_dims(x, 0)
  reps = (1,) * (n - len(reps)) + reps
  axes = [dim_atoms(r) + a for r, a in zip(reps, x.axes)]
  lens = [len(dim_atoms(r)) for r in reps]
  return SArr(axes, lambda idx: x.fn(tuple(d[l:] for d, l in zip(idx, lens))), x.dtype)


def stack(xs, axis=0):
  xs = [asarr(x) for x in xs]
  if not xs: raise ValueError('Need at least one array to stack.')
  n = xs[0].ndim + 1
  axis = _norm_axis(axis, n)
  dt = xs[0].dtype
  for x in xs[1:]:
    dt = promote(dt, x.dtype)
    for a, b in zip(x.axes, xs[0].axes):
      if not same_axis(a, b) and not decide(dim_term(mkdim(a)) == dim_term(mkdim(b))):
        raise ValueError('All input arrays must have the same shape.')
    if x.ndim != xs[0].ndim: raise ValueError('All input arrays must have the same shape.')
  xs = [x.astype(dt) for x in xs]
  k = len(xs)
  axes = list(xs[0].axes); axes.insert(axis, dim_atoms(k))
  def fn(idx):
    sel = idx[axis]
    rest = tuple(idx[:axis] + idx[axis + 1:])
    vals = [x.fn(tuple(conv_digits(d, xs[0].axes[j], x.axes[j]) for j, d in enumerate(rest))) for x in xs]
    if k == 1: return vals[0]
    d = z3.simplify(sel[0])
    if z3.is_int_value(d): return vals[d.as_long()]
    out = vals[-1]
    for j in range(k - 2, -1, -1): out = z3.If(d == j, vals[j], out)
    return out
  return SArr(axes, fn, dt)


def concatenate(xs, axis=0):
  xs = [asarr(x) for x in xs]
  axis = _norm_axis(axis, xs[0].ndim)
  sizes = [x.shape[axis] for x in xs]
  total = sizes[0]
  for s in sizes[1:]: total = total + s
  dt = xs[0].dtype
  for x in xs[1:]: dt = promote(dt, x.dtype)
  xs = [x.astype(dt) for x in xs]
  axes = list(xs[0].axes); axes[axis] = dim_atoms(total)
  def fn(idx):
    pos = linear(idx[axis], axes[axis])
    offs = [0]
    for s in sizes: offs.append(zadd(term(offs[-1]), term(s)))
    out = None
    for x, o, s in reversed(list(zip(xs, offs, sizes))):
      local = zsub(pos, term(o))
      i = list(idx); i[axis] = digits_of(local, x.axes[axis])
      v = x.fn(tuple(i))
      out = v if out is None else z3.If(pos < zadd(term(o), term(s)), v, out)
    return out
  return SArr(axes, fn, dt)


def broadcast_shapes(*shapes):
  """jnp.broadcast_shapes: ValueError when two sizes differ and neither is one."""
  n = max(len(s) for s in shapes)
  out = []
  for j in range(n):
    r = 1
    for s in shapes:
      if len(s) - n + j < 0: continue
      d = s[len(s) - n + j]
      if isinstance(d, int) and d == 1: continue
      if isinstance(r, int) and r == 1: r = d
      elif d is r or core.decide(dim_term(d) == dim_term(r)): pass
      elif core.decide(dim_term(d) == 1): pass
      elif core.decide(dim_term(r) == 1): r = d
      else: raise ValueError('Incompatible shapes for broadcasting')
    out.append(r)
  return tuple(out)


def roll(x, shift, axis=None):
  x = asarr(x)
  if axis is None: raise Unsupported('roll without axis')
  if isinstance(axis, (tuple, list)): raise Unsupported('roll with several axes')
  axis = _norm_axis(axis, x.ndim)
  n = dim_term(x.shape[axis])
  sh = term(shift)
  def fn(idx):
    pos = linear(idx[axis], x.axes[axis])
    i = list(idx); i[axis] = digits_of(core.zmod(pos - sh, n), x.axes[axis])
    return x.fn(tuple(i))
  return SArr(x.axes, fn, x.dtype)


def full(shape, v, dtype=None):
  if not isinstance(shape, (tuple, list)): shape = (shape,)
  v = asarr(v)
  if v.ndim: raise Unsupported('full with array')
  dt = dtype_of(dtype) if dtype is not None else v.dtype
  t = cast_term(v.fn(()), dt, dt)
  return SArr([dim_atoms(s) for s in shape], lambda i: t, dt)


def full_like(x, v, dtype=None, shape=None):
  x = asarr(x)
  return full(x.shape if shape is None else shape, v, dtype or x.dtype)


def arange(*a, dtype=None):
  a = [x for x in a]
  lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
  if isinstance(st, int) and st == 1:
    d = hi if isinstance(lo, int) and lo == 0 else hi - lo
    ax = dim_atoms(d)
    lo_t = term(lo)
    return SArr([ax], lambda i: zadd(lo_t, linear(i[0], ax)) if not (isinstance(lo, int) and lo == 0) else linear(i[0], ax), dtype or 'int32')
  raise Unsupported('arange with step')


def eye(n, m=None, dtype=None):
  a = dim_atoms(n); b = dim_atoms(n if m is None else m)
  dt = dtype_of(dtype or 'float32')
  return SArr([a, b], lambda i: cast_term(eq_digits(i[0], i[1]) if same_axis(a, b) else linear(i[0], a) == linear(i[1], b), dt, dt), dt)


def one_hot(x, n, dtype=None, axis=-1):
  x = asarr(x)
  dt = dtype_of(dtype or 'float32')
  axis = _norm_axis(axis, x.ndim + 1)
  na = dim_atoms(n)
  axes = list(x.axes); axes.insert(axis, na)
  def fn(idx):
    d = idx[axis]
    v = num(x.fn(tuple(idx[:axis] + idx[axis + 1:])))
    dt_ = eq_digits(digits_of(v, na), d) if False else v == linear(d, na)
    return cast_term(dt_, dt, dt)
  return SArr(axes, fn, dt)


# -- indexing -----------------------------------------------------------------
def _clampidx(t, a):
  n = dim_term(mkdim(a))
  if t.sort() != z3.IntSort(): raise Unsupported('non-integer index')
  ts = z3.simplify(t)
  if z3.is_int_value(ts):
    v = ts.as_long()
    t = zadd(n, ts) if v < 0 else ts
    return z3.simplify(t)
  if known_in_range(t, a): return t
  t = z3.If(t < 0, t + n, t)
  return z3.If(t < 0, z3.IntVal(0), z3.If(t >= n, n - 1, t))


def known_in_range(t, atoms):
  """True if t is syntactically an index along these atoms."""
  c = _ensure()
  if len(atoms) == 1:
    k = atom_key(atoms[0])
    if t.get_id() in c.ivars and atom_key(c.ivars[t.get_id()][1]) == k: return True
    if z3.is_app(t) and t.decl().name() in c.theory:
      tf = c.theory[t.decl().name()]
      if getattr(tf, 'index_atoms', None) is not None and akeys(tf.index_atoms) == akeys(atoms): return True
  hit = c.linmap.get(t.get_id())
  return hit is not None and hit[2] == akeys(atoms)


def _slice_bounds(s, a):
  """(start term, length dim) of slice s along axis a (step 1)."""
  n = mkdim(a)
  st = s.start if s.start is not None else 0
  sp = s.stop if s.stop is not None else n
  if s.step not in (None, 1): return None
  return st, sp, n


def getitem(x, key, fill=None):
  x = asarr(x)
  if not isinstance(key, tuple): key = (key,)
  if isinstance(key, tuple) and any(isinstance(k, list) for k in key):
    key = tuple(asarr(k) if isinstance(k, list) else k for k in key)
  n_idx = sum(1 for k in key if k is not None and k is not Ellipsis)
  if any(k is Ellipsis for k in key):
    p = [i for i, k in enumerate(key) if k is Ellipsis][0]
    key = key[:p] + (slice(None),) * (x.ndim - n_idx) + key[p + 1:]
  else:
    key = key + (slice(None),) * (x.ndim - n_idx)
  if sum(1 for k in key if k is not None) > x.ndim: raise IndexError('too many indices for array')
  # Build mapping.
  spec = []     # per output axis or consumed source axis
  src = 0
  arrs = []     # advanced indices (source axis, array)
  for k in key:
    if k is None: spec.append(('new',)); continue
    if isinstance(k, slice):
      spec.append(('slice', src, k)); src += 1; continue
    if isinstance(k, (int, np.integer, SInt)) and not isinstance(k, bool):
      spec.append(('int', src, term(k))); src += 1; continue
    if isinstance(k, (SArr, np.ndarray)):
      k = asarr(k)
      if k.dtype.kind == 'b': raise Unsupported('boolean mask indexing')
      if k.ndim == 0: spec.append(('int', src, k.fn(()))); src += 1; continue
      spec.append(('adv', src, k)); arrs.append(len(spec) - 1); src += 1; continue
    raise Unsupported(f'index {k!r}')
  out_axes = []
  readers = [None] * x.ndim
  adv_axes = None
  if arrs:
    # numpy rule: scalars count as advanced when mixed with arrays.
    advpos = [i for i, s in enumerate(spec) if s[0] in ('adv', 'int')]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    adv_axes = broadcast_axes([spec[i][2].axes for i in arrs])
    adv_out = None
  first_adv = None
  layout = []
  for i, s in enumerate(spec):
    if s[0] == 'new': layout.append(('new',))
    elif s[0] == 'slice': layout.append(('slice', s[1], s[2]))
    elif s[0] == 'int':
      if arrs and 'ADV' not in [l[0] for l in layout] and contiguous: layout.append(('ADV',))
    elif s[0] == 'adv':
      if 'ADV' not in [l[0] for l in layout] and contiguous: layout.append(('ADV',))
  if arrs and not contiguous: layout.insert(0, ('ADV',))
  slots = {}
  for l in layout:
    if l[0] == 'new': out_axes.append(())
    elif l[0] == 'ADV':
      slots['ADV'] = len(out_axes); out_axes.extend(adv_axes)
    else:
      _, s, sl = l
      a = x.axes[s]
      if sl.start is None and sl.stop is None and sl.step in (None, 1):
        slots[s] = (len(out_axes), None); out_axes.append(a)
      else:
        st, off_fn, ax = _do_slice(sl, a)
        slots[s] = (len(out_axes), off_fn); out_axes.append(ax)
  ints = {s[1]: s[2] for s in spec if s[0] == 'int'}
  advs = {s[1]: s[2] for s in spec if s[0] == 'adv'}
  for s_, t in ints.items():
    # static bounds check for concrete positions (numpy / jnp semantics: clamp).
    pass
  def fn(idx):
    src = []
    guard = []
    for s in range(x.ndim):
      a = x.axes[s]
      if s in ints:
        t = _clampidx(ints[s], a)
        src.append(digits_of(t, a))
      elif s in advs:
        k = advs[s]
        p = slots['ADV']
        ai = idx[p:p + len(adv_axes)]
        t = num(k.fn(bidx(ai, k.axes, adv_axes)))
        if fill is not None:
          n = dim_term(mkdim(a))
          guard.append(z3.And(t >= -n, t < n))
        src.append(digits_of(_clampidx(t, a), a))
      else:
        p, off = slots[s]
        src.append(idx[p] if off is None else off(idx[p]))
    v = x.fn(tuple(src))
    if guard:
      f = cast_term(term(fill), x.dtype, x.dtype)
      v = z3.If(z3.And(*guard), v, f)
    return v
  r = SArr(out_axes, fn, x.dtype)
  return r


def _do_slice(sl, a):
  n = mkdim(a)
  if sl.step not in (None, 1):
    if sl.step == -1 and sl.start is None and sl.stop is None:
      nt = dim_term(n)
      return None, (lambda d: digits_of(nt - 1 - linear(d, a), a)), a
    if isinstance(n, int) and isinstance(sl.step, int):
      rng = range(*sl.indices(n))
      if len(rng) == 0: raise Unsupported('empty slice')
      ax = dim_atoms(len(rng))
      return None, (lambda d: digits_of(z3.IntVal(rng.start) + rng.step * linear(d, ax), a)), ax
    raise Unsupported('slice with step')
  def norm(v, default):
    if v is None: return default
    if isinstance(v, (int, np.integer)) and v < 0: return n + int(v) if not isinstance(n, int) else max(n + int(v), 0)
    return v
  st, sp = norm(sl.start, 0), norm(sl.stop, n)
  if isinstance(n, int) and isinstance(st, int) and isinstance(sp, int):
    st, sp = min(st, n), min(sp, n)
    ln = max(sp - st, 0)
  else:
    # symbolic: require 0 <= st <= sp <= n (else clamp, decided by branching).
    if decide(z3.And(term(st) >= 0, term(st) <= term(sp), term(sp) <= dim_term(n))):
      ln = sp - st if not (isinstance(st, int) and st == 0) else sp
    else:
      raise Unsupported('slice out of bounds')
  ax = dim_atoms(ln)
  stt = term(st)
  if isinstance(st, int) and st == 0 and len(a) == 1:
    return None, (lambda d: digits_of(linear(d, ax), a)), ax
  return None, (lambda d: digits_of(zadd(stt, linear(d, ax)), a)), ax


def _perm_key(key, x, bv):
  """The inverse of the permutation by which a 1-d array is indexed, if it is one of the first axis."""
  if len(key) != 1 or key[0].ndim != 1 or len(bv) != 1 or len(x.axes[0]) != 1: return None
  t = key[0].fn(((bv[0],),))
  if not (z3.is_app(t) and t.num_args()): return None
  tf = _ensure().theory.get(t.decl().name())
  if tf is None or tf.kind != 'perm' or akeys([tf.atom]) != akeys([x.axes[0][0]]): return None
  *amb, last = t.children()
  if not last.eq(bv[0]) or any(bv[0].get_id() in free_consts(a) for a in amb): return None
  return lambda i: tf.inv(*(amb + [i]))


def scatter(x, key, u, op, mode=None, **kw):
  """x.at[key].add/set(u): negative indices wrap, out-of-range ones are dropped."""
  x, u = asarr(x), asarr(u)
  if not isinstance(key, tuple): key = (key,)
  if all(isinstance(k, (int, np.integer, SInt)) for k in key):
    pos = [term(k) for k in key]
    def fn0(idx):
      c = []
      for t, a, d in zip(pos, x.axes, idx):
        n = dim_term(mkdim(a))
        c.append(linear(d, a) == z3.If(t < 0, t + n, t))
      rest_axes = x.axes[len(key):]
      uv = u.fn(bidx(idx[len(key):], u.axes, rest_axes))
      base = x.fn(idx)
      uv = cast_term(uv, x.dtype, x.dtype)
      return z3.If(z3.And(*c), zadd(base, uv) if op == 'add' else uv, base)
    return SArr(x.axes, fn0, x.dtype)
  key = [asarr(k) for k in key]
  if any(k.dtype.kind not in 'iu' for k in key): raise Unsupported('scatter key')
  baxes = broadcast_axes([k.axes for k in key])
  rest_axes = x.axes[len(key):]
  u_axes = tuple(baxes) + tuple(rest_axes)
  def hit(bdig, idx):
    cs = []
    for k, a, d in zip(key, x.axes, idx):
      t = num(k.fn(bidx(bdig, k.axes, baxes)))
      n = dim_term(mkdim(a))
      cs.append(z3.If(t < 0, t + n, t) == linear(d, a))
    return z3.And(*cs)
  def fn(idx):
    idx_rest = tuple(idx[len(key):])
    flat = [a for ax in baxes for a in ax]
    bv = [bvar(a, 'sc') for a in flat]
    bdig, p = [], 0
    for ax in baxes:
      bdig.append(tuple(bv[p:p + len(ax)])); p += len(ax)
    uval = cast_term(u.fn(bidx(tuple(bdig) + idx_rest, u.axes, u_axes)), x.dtype, x.dtype)
    h = hit(tuple(bdig), idx)
    base = x.fn(idx)
    via = _perm_key(key, x, bv)
    if via is not None and op == 'set':
      # every position is written exactly once, by the update at the inverse of the permutation.
      inv = via(idx[0][0])
      return cast_term(u.fn(bidx(((inv,),) + idx_rest, u.axes, u_axes)), x.dtype, x.dtype)
    if op == 'add':
      z = core._zero(num(uval))
      s = make_sum(bv, flat, z3.If(h, num(uval), z))
      return zadd(base, s)
    # set: last writer unspecified for duplicates; contract: some hit writes.
    tf = theory_fn('scat', 'scatterset', bv, [h, uval, base], uval.sort())
    tf.atoms, tf.hit, tf.val, tf.base = flat, h, uval, base
    return tf.decl(*tf.params)
  return SArr(x.axes, fn, x.dtype)


# -- reductions ---------------------------------------------------------------
def _red_axes(x, axis):
  if axis is None: return list(range(x.ndim))
  if isinstance(axis, (tuple, list)): return sorted(_norm_axis(a, x.ndim) for a in axis)
  return [_norm_axis(axis, x.ndim)]


def _reduce(x, axis, keepdims, combine, dtype):
  x = asarr(x)
  red = _red_axes(x, axis)
  keep = [k for k in range(x.ndim) if k not in red]
  out_axes = [x.axes[k] if k in keep else () for k in range(x.ndim)] if keepdims else [x.axes[k] for k in keep]
  def fn(idx):
    src = [None] * x.ndim
    if keepdims:
      for k in keep: src[k] = idx[k]
    else:
      for d, k in zip(idx, keep): src[k] = d
    flat = [a for k in red for a in x.axes[k]]
    bv = [bvar(a, 'r') for a in flat]
    p = 0
    for k in red:
      src[k] = tuple(bv[p:p + len(x.axes[k])]); p += len(x.axes[k])
    return combine(bv, flat, x.fn(tuple(src)))
  return SArr(out_axes, fn, dtype)


def _expand_ints(bv, atoms, body, op, limit=64):
  """Unrolls bound variables over concrete atoms."""
  terms = [body]
  b2, a2 = [], []
  n = 1
  for v, a in zip(bv, atoms):
    if isinstance(a, int) and n * a <= limit:
      n *= a
      terms = [subst(t, [(v, z3.IntVal(j))]) for t in terms for j in range(a)]
    else:
      b2.append(v); a2.append(a)
  return b2, a2, terms


def make_sum(bv, atoms, body):
  """Sum over all bound digits in range of body."""
  body = num(body)
  bv, atoms, terms = _expand_ints(bv, atoms, body, None)
  out = None
  for b in terms:
    b = z3.simplify(b) if not bv else b
    t = _sum1(bv, atoms, b) if bv else b
    out = t if out is None else zadd(out, t)
  return out


def _sum1(bv, atoms, body):
  if core._iszero(body): return body
  if body.decl().kind() == z3.Z3_OP_UMINUS: return -_sum1(bv, atoms, body.arg(0))
  if body.decl().kind() == z3.Z3_OP_MUL and body.num_args() == 2:
    # Constant factors are taken out.
    for k in (0, 1):
      if z3.is_rational_value(body.arg(k)) or z3.is_int_value(body.arg(k)): return body.arg(k) * _sum1(bv, atoms, body.arg(1 - k))
  fc = free_consts(body)
  # A body that does not depend on a bound variable contributes a factor n.
  dep = [i for i, v in enumerate(bv) if v.get_id() in fc]
  if len(dep) < len(bv):
    f = body
    if dep: f = _sum1([bv[i] for i in dep], [atoms[i] for i in dep], body)
    for i, a in enumerate(atoms):
      if i not in dep:
        at = atom_term(a)
        f = f * (to_real(at) if f.sort() == z3.RealSort() else at)
    return f
  c = _ensure()
  # Canonical key so that the same summation gets the same function symbol.
  bids = {b.get_id() for b in bv}
  amb = [v for i, v in free_consts(body).items() if i in c.ivars and i not in bids]
  canon = canonical(body, bv, amb)
  key = ('sum', akeys(atoms), canon.get_id())
  hit = c.tindex.get(key)
  if hit is not None:
    return hit[0].decl(*amb)
  tf = theory_fn('Sum', 'sum', bv, [body], body.sort())
  assert [p.get_id() for p in tf.params] == [v.get_id() for v in amb]
  tf.atoms, tf.body = tuple(atoms), body
  c.tindex[key] = (tf, canon)
  return tf.decl(*tf.params)


def reduce_sum(x, axis=None, dtype=None, keepdims=False, where=None, initial=None):
  x = asarr(x)
  if where is not None: x = globals()['where'](where, x, 0)
  if dtype is not None: x = _wide(x.astype(dtype))
  elif x.dtype.kind == 'b' or x.dtype.kind in 'iu' and x.dtype.itemsize < 4: x = x.astype('int32')
  return _reduce(x, axis, keepdims, make_sum, x.dtype)


def _wide(x):
  """Integers are mathematical here: accumulating in types of less than 32 bits is not covered by that assumption."""
  if x.dtype.kind in 'iu' and x.dtype.itemsize < 4: raise Unsupported(f'accumulation in {x.dtype.name}')
  return x


def reduce_mean(x, axis=None, keepdims=False):
  x = asarr(x)
  s = reduce_sum(x.astype('float32') if x.dtype.kind != 'f' else x, axis, keepdims=keepdims)
  red = _red_axes(x, axis)
  n = mkdim([a for k in red for a in x.axes[k]])
  return s / n


def _extreme(is_max):
  def combine(bv, atoms, body):
    body = num(body)
    bv2, atoms2, terms = _expand_ints(bv, atoms, body, None)
    out = None
    for b in terms:
      if not bv2: t = b
      else:
        fc = free_consts(b)
        dep = [i for i, v in enumerate(bv2) if v.get_id() in fc]
        if not dep: t = b
        else:
          vs, ats = [bv2[i] for i in dep], [atoms2[i] for i in dep]
          c = _ensure()
          bids = {x.get_id() for x in vs}
          amb = [v for i, v in free_consts(b).items() if i in c.ivars and i not in bids]
          canon = canonical(b, vs, amb)
          key = ('max' if is_max else 'min', akeys(ats), canon.get_id())
          hit = c.tindex.get(key)
          if hit is None:
            tf = theory_fn('Max' if is_max else 'Min', 'max', vs, [b], b.sort())
            tf.atoms, tf.body, tf.is_max = tuple(ats), b, is_max
            tf.wit = [z3.Function(tf.decl.name() + f'_w{i}', *([p.sort() for p in tf.params] + [z3.IntSort()]))
                      for i in range(len(ats))]
            hit = c.tindex[key] = (tf, canon)
          tf = hit[0]
          t = tf.decl(*amb)
      out = t if out is None else (z3.If(out >= t, out, t) if is_max else z3.If(out <= t, out, t))
    return out
  return combine


def reduce_max(x, axis=None, keepdims=False, **k):
  x = asarr(x)
  return _reduce(x, axis, keepdims, _extreme(True), x.dtype if x.dtype.kind != 'b' else 'int32')


def reduce_min(x, axis=None, keepdims=False, **k):
  x = asarr(x)
  return _reduce(x, axis, keepdims, _extreme(False), x.dtype if x.dtype.kind != 'b' else 'int32')


def reduce_all(x, axis=None, keepdims=False):
  x = asarr(x).astype('bool')
  r = _reduce(x.astype('int32'), axis, keepdims, _extreme(False), 'int32')
  return r != 0


def reduce_any(x, axis=None, keepdims=False):
  x = asarr(x).astype('bool')
  r = _reduce(x.astype('int32'), axis, keepdims, _extreme(True), 'int32')
  return r != 0


def cumsum(x, axis=None, dtype=None):
  x = asarr(x)
  if axis is None: x, axis = reshape(x, (-1,)), 0
  axis = _norm_axis(axis, x.ndim)
  if dtype is not None: x = x.astype(dtype)
  elif x.dtype.kind == 'b': x = x.astype('int32')
  x = _wide(x)
  # Generic body over fresh index variables.
  gen = [tuple(bvar(a, 'cs') for a in ax) for ax in x.axes]
  body = num(x.fn(tuple(gen)))
  c = _ensure()
  flat = [v for d in gen for v in d]
  # Parameters: ambient free index variables + all generic digits.
  fc = free_consts(body)
  amb = [v for i, v in fc.items() if i in c.ivars and not any(v.eq(g) for g in flat)]
  params = amb + flat
  canon = canonical(body, flat, amb)
  ckey = ('cumsum', axis, tuple(akeys(a) for a in x.axes), canon.get_id())
  if ckey in c.tindex:
    d0 = c.tindex[ckey][0].decl
    return SArr(x.axes, lambda idx: d0(*(amb + [d for i in idx for d in i])), x.dtype)
  name = c.fresh('Cumsum')
  decl = z3.Function(name, *([z3.IntSort()] * len(params) + [body.sort()]))
  tf = TheoryFn(decl, params, 'cumsum', bound=())
  tf.body = body
  tf.atoms = x.axes[axis]
  k0 = len(amb) + sum(len(a) for a in x.axes[:axis])
  tf.pos = (k0, k0 + len(x.axes[axis]))
  tf.nonneg = prove_forall(body >= 0, flat, [a for ax in x.axes for a in ax])
  tf.is01 = tf.nonneg and prove_forall(body <= 1, flat, [a for ax in x.axes for a in ax])
  c.theory[name] = tf
  c.tindex[ckey] = (tf, canon)
  def fn(idx):
    args = amb + [d for i in idx for d in i]
    return decl(*args)
  return SArr(x.axes, fn, x.dtype)


def prove_forall(goal, vs, atoms):
  """Cheap side proof: goal holds for all in-range values of vs on this path."""
  hyp = [in_range([v], [a]) for v, a in zip(vs, atoms)]
  r, _ = core._check(cur().pc + hyp + [z3.Not(goal)], 3000)
  return r == z3.unsat


def top_k(x, k):
  """jax.lax.top_k along the last axis: values, indices (ties: lowest index first)."""
  x = asarr(x)
  ka = dim_atoms(k)
  n = mkdim(x.axes[-1])
  if len(x.axes[-1]) != 1: raise Unsupported('top_k along a composite axis')
  if not (isinstance(k, int) and isinstance(n, int)):
    if not decide(dim_term(k) <= dim_term(n)): raise ValueError('k argument to top_k must be no larger than minor dimension')
  elif k > n: raise ValueError('k argument to top_k must be no larger than minor dimension')
  ea = x.axes[-1]
  gen = [tuple(bvar(a, 'tk') for a in ax) for ax in x.axes[:-1]]
  ev = bvar(ea[0], 'tke')
  body = num(x.fn(tuple(gen) + ((ev,),)))
  c = _ensure()
  flat = [v for d in gen for v in d]
  fc = free_consts(body)
  amb = [v for i, v in fc.items() if i in c.ivars and not any(v.eq(g) for g in flat + [ev])]
  kv = [bvar(a, 'tkk') for a in ka]
  params = amb + flat + kv
  canon = canonical(body, flat + [ev], amb)
  ckey = ('topk', akeys(ka), akeys(ea), tuple(akeys(a) for a in x.axes), canon.get_id())
  if ckey in c.tindex:
    tf0 = c.tindex[ckey][0]
    axes = list(x.axes[:-1]) + [ka]
    ifn0 = lambda idx: tf0.decl(*(amb + [d for i in idx for d in i]))
    return (SArr(axes, lambda idx: x.fn(tuple(idx[:-1]) + ((ifn0(idx),),)), x.dtype), SArr(axes, ifn0, 'int32'))
  name = c.fresh('TopK')
  decl = z3.Function(name, *([z3.IntSort()] * len(params) + [z3.IntSort()]))
  rank = z3.Function(name + '_rank', *([z3.IntSort()] * (len(amb) + len(flat) + 1) + [z3.IntSort()]))
  tf = TheoryFn(decl, params, 'topk', bound=())
  tf.body, tf.ev, tf.katoms, tf.eatom, tf.rank = body, ev, ka, ea[0], rank
  tf.nrest = len(amb) + len(flat)
  tf.index_atoms = ea
  tf.kdim = mkdim(ka)
  c.tindex[ckey] = (tf, canon, amb)
  c.theory[name] = tf
  tr = TheoryFn(rank, amb + flat + [ev], 'topkrank', bound=())
  tr.owner = tf
  c.theory[name + '_rank'] = tr
  axes = list(x.axes[:-1]) + [ka]
  def ifn(idx):
    args = amb + [d for i in idx for d in i]
    t = decl(*args)
    return t
  def vfn(idx):
    return x.fn(tuple(idx[:-1]) + ((ifn(idx),),))
  return SArr(axes, vfn, x.dtype), SArr(axes, ifn, 'int32')


def argsort(x, axis=-1, descending=False, stable=True, kind=None, order=None):
  """Permutation sorting x along axis (stable)."""
  x = asarr(x)
  axis = _norm_axis(axis, x.ndim)
  if len(x.axes[axis]) != 1: raise Unsupported('argsort along a composite axis')
  at = x.axes[axis][0]
  c = _ensure()
  gen = [tuple(bvar(a, 'as') for a in ax) for ax in x.axes]
  body = num(x.fn(tuple(gen)))
  sv = gen[axis][0]
  rest = [v for j, d in enumerate(gen) if j != axis for v in d]
  fc = free_consts(body)
  amb = [v for i, v in fc.items() if i in c.ivars and not any(v.eq(g) for g in rest + [sv])]
  # argsort of a permutation is its inverse.
  if z3.is_app(body) and body.decl().name() in c.theory and c.theory[body.decl().name()].kind == 'perm':
    tf = c.theory[body.decl().name()]
    if (not descending and akeys([tf.atom]) == akeys([at]) and
        body.arg(body.num_args() - 1).eq(sv) and
        not any(free_consts(body.arg(i)).get(sv.get_id()) is not None for i in range(body.num_args() - 1))):
      def fn(idx):
        r = [v for j, d in enumerate(idx) if j != axis for v in d]
        args = [subst(body.arg(i), list(zip(rest, r))) for i in range(body.num_args() - 1)]
        return tf.inv(*(args + [idx[axis][0]]))
      return SArr(x.axes, fn, 'int32')
  params = amb + rest + [sv]
  canon = canonical(body, rest + [sv], amb)
  ckey = ('perm', axis, bool(descending), tuple(akeys(a) for a in x.axes), canon.get_id())
  if ckey in c.tindex:
    d0 = c.tindex[ckey][0].decl
    return SArr(x.axes, lambda idx: d0(*(amb + [v for j, d in enumerate(idx) if j != axis for v in d] + [idx[axis][0]])), 'int32')
  name = c.fresh('Perm')
  decl = z3.Function(name, *([z3.IntSort()] * (len(params) + 1)))
  inv = z3.Function(name + '_inv', *([z3.IntSort()] * (len(params) + 1)))
  tf = TheoryFn(decl, params, 'perm', bound=())
  tf.inv, tf.atom, tf.body, tf.descending, tf.index_atoms = inv, at, body, bool(descending), (at,)
  c.theory[name] = tf
  c.tindex[ckey] = (tf, canon)
  ti = TheoryFn(inv, params, 'perm', bound=())
  ti.inv, ti.atom, ti.body, ti.descending, ti.index_atoms = decl, at, None, False, (at,)
  c.theory[name + '_inv'] = ti
  def fn(idx):
    r = [v for j, d in enumerate(idx) if j != axis for v in d]
    return decl(*(amb + r + [idx[axis][0]]))
  return SArr(x.axes, fn, 'int32')


def sort_arr(x, axis=-1, **k):
  x = asarr(x)
  axis = _norm_axis(axis, x.ndim)
  n = x.shape[axis]
  if isinstance(n, int):
    return _sort_concrete(x, axis, n)
  p = argsort(x, axis, **k)
  def fn(idx):
    i = list(idx)
    i[axis] = (p.fn(idx),)
    return x.fn(tuple(i))
  return SArr(x.axes, fn, x.dtype)


def _sort_concrete(x, axis, n):
  """Sorting network over a concrete axis."""
  if n > 6: raise Unsupported('sort of a long concrete axis')
  def fn(idx):
    vals = []
    for j in range(n):
      i = list(idx); i[axis] = digits_of(z3.IntVal(j), x.axes[axis])
      vals.append(num(x.fn(tuple(i))))
    for a in range(n):
      for b in range(n - 1 - a):
        lo = z3.If(vals[b] <= vals[b + 1], vals[b], vals[b + 1])
        hi = z3.If(vals[b] <= vals[b + 1], vals[b + 1], vals[b])
        vals[b], vals[b + 1] = lo, hi
    if n == 1: return vals[0]
    d = z3.simplify(linear(idx[axis], x.axes[axis]))
    if z3.is_int_value(d): return vals[d.as_long()]
    out = vals[-1]
    for j in range(n - 2, -1, -1): out = z3.If(d == j, vals[j], out)
    return out
  return SArr(x.axes, fn, x.dtype)


def argmax(x, axis=None, keepdims=False):
  x = asarr(x)
  if axis is None: raise Unsupported('argmax without axis')
  axis = _norm_axis(axis, x.ndim)
  y = moveaxis(x, axis, -1)
  if len(y.axes[-1]) == 0: return full([mkdim(a) for a in y.axes[:-1]], 0, 'int32')
  _, i = top_k(y, 1)
  return squeeze(i, -1)


def softmax(x, axis=-1, where=None, initial=None):
  """softmax: positive entries that sum to one along the axes."""
  x = asarr(x)
  red = _red_axes(x, axis)
  c = _ensure()
  gen = [tuple(bvar(a, 'sm') for a in ax) for ax in x.axes]
  body = to_real(x.fn(tuple(gen)))
  flat = [v for d in gen for v in d]
  fc = free_consts(body)
  amb = [v for i, v in fc.items() if i in c.ivars and not any(v.eq(g) for g in flat)]
  params = amb + flat
  canon = canonical(body, flat, amb)
  ckey = ('softmax', tuple(red), tuple(akeys(a) for a in x.axes), canon.get_id())
  if ckey in c.tindex:
    d0 = c.tindex[ckey][0].decl
    return SArr(x.axes, lambda idx: d0(*(amb + [d for i in idx for d in i])), 'float32')
  name = c.fresh('Softmax')
  decl = z3.Function(name, *([z3.IntSort()] * len(params) + [z3.RealSort()]))
  tf = TheoryFn(decl, params, 'softmax', bound=())
  tf.body = body
  pos = []
  k0 = len(amb)
  for j, ax in enumerate(x.axes):
    if j in red: pos += list(range(k0, k0 + len(ax)))
    k0 += len(ax)
  tf.redpos = tuple(pos)
  tf.redatoms = tuple(a for j in red for a in x.axes[j])
  c.theory[name] = tf
  c.tindex[ckey] = (tf, canon)
  return SArr(x.axes, lambda idx: decl(*(amb + [d for i in idx for d in i])), 'float32')


# -- einsum -------------------------------------------------------------------
def matmul(a, b, precision=None, preferred_element_type=None, **kw):
  a, b = asarr(a), asarr(b)
  if not a.ndim or not b.ndim: raise ValueError('matmul: scalar operand')
  l = '...mk' if a.ndim > 1 else 'k'
  r = '...kn' if b.ndim > 1 else 'k'
  dots = '...' if a.ndim > 1 or b.ndim > 1 else ''
  return einsum(f"{l},{r}->{dots}{'m' if a.ndim > 1 else ''}{'n' if b.ndim > 1 else ''}", a, b, preferred_element_type=preferred_element_type)


def dot(a, b, **kw):
  a, b = asarr(a), asarr(b)
  if not a.ndim or not b.ndim: return a * b
  if a.ndim > 2 or b.ndim > 2: raise Unsupported('dot of more than two dimensions')
  return matmul(a, b, **kw)


def vdot(a, b, **kw): return matmul(reshape(asarr(a), (-1,)), reshape(asarr(b), (-1,)))


def outer(a, b): return einsum('m,n->mn', a, b)


def einsum(spec, *ops, precision=None, preferred_element_type=None, **kw):
  ops = [asarr(o) for o in ops]
  spec = spec.replace(' ', '')
  lhs, out = spec.split('->') if '->' in spec else (spec, None)
  ins = lhs.split(',')
  if len(ins) != len(ops): raise ValueError('einsum: wrong number of operands')
  if out is None: raise Unsupported('implicit einsum output')
  # Ellipsis handling.
  def expand(s, nd):
    if '...' in s:
      a, b = s.split('...')
      m = nd - len(a) - len(b)
      if m < 0: raise ValueError('einsum: too few dimensions')
      return list(a), m, list(b)
    if len(s) != nd: raise ValueError(f'einsum: operand has {nd} dims, subscript {s!r}')
    return list(s), 0, []
  parsed = [expand(s, o.ndim) for s, o in zip(ins, ops)]
  m = max(p[1] for p in parsed)
  ell = [f'.{j}' for j in range(m)]
  labels = [p[0] + ell[m - p[1]:] + p[2] for p in parsed]
  if '...' in out:
    a, b = out.split('...'); out_l = list(a) + ell + list(b)
  else:
    if m: raise ValueError('einsum: ellipsis dims missing in output')
    out_l = list(out)
  axis_of = {}
  for ls, o in zip(labels, ops):
    for l, a in zip(ls, o.axes):
      if l not in axis_of or axis_of[l] == (): axis_of[l] = a
      elif a == () or same_axis(a, axis_of[l]): pass
      elif not decide(dim_term(mkdim(a)) == dim_term(mkdim(axis_of[l]))):
        raise ValueError(f'einsum: size of label {l!r} mismatch: {mkdim(a)} vs {mkdim(axis_of[l])}')
  red = []
  for ls in labels:
    for l in ls:
      if l not in out_l and l not in red: red.append(l)
  dt = ops[0].dtype
  for o in ops[1:]: dt = promote(dt, o.dtype)
  if preferred_element_type is not None: dt = dtype_of(preferred_element_type)
  def fn(idx):
    env = dict(zip(out_l, idx))
    flat, bv = [], []
    for l in red:
      vs = tuple(bvar(a, 'e') for a in axis_of[l])
      env[l] = vs
      flat += list(axis_of[l]); bv += list(vs)
    prod = None
    for ls, o in zip(labels, ops):
      v = o.fn(tuple(() if o.axes[j] == () else conv_digits(env[l], axis_of[l], o.axes[j]) for j, l in enumerate(ls)))
      prod = v if prod is None else op_mul(prod, v)
    prod = cast_term(prod, dt, dt)
    if not red or not bv: return prod
    if dt.kind == 'b':
      return _extreme(True)(bv, flat, to_int(prod)) != 0
    return make_sum(bv, flat, prod)
  return SArr([axis_of[l] for l in out_l], fn, dt)


# -- vmap ---------------------------------------------------------------------
def vmap(fun, in_axes=0, out_axes=0, **kw):
  from vc import trees
  def wrapped(*args, **kws):
    if kws:                             # keyword arguments are mapped over their first axis
      n, names = len(args), list(kws)
      ia = tuple(in_axes) if isinstance(in_axes, (tuple, list)) else (in_axes,) * n
      return vmap(lambda *a: fun(*a[:n], **dict(zip(names, a[n:]))), in_axes=ia + (0,) * len(names), out_axes=out_axes)(*args, *kws.values())
    ia = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    ax = None
    for a, i in zip(args, ia):
      if i is None: continue
      for leaf in trees.leaves(a):
        leaf = asarr(leaf)
        cand = leaf.axes[_norm_axis(i, leaf.ndim)]
        if ax is None: ax = cand
        elif not same_axis(ax, cand) and not decide(dim_term(mkdim(ax)) == dim_term(mkdim(cand))):
          raise ValueError('vmap got inconsistent sizes for array axes to be mapped')
    if ax is None: raise ValueError('vmap: no mapped arguments')
    vs = tuple(bvar(a, 'vm') for a in ax)
    saved = list(cur().pc)
    cur().pc.append(in_range(vs, ax))
    def take(leaf, i):
      leaf = asarr(leaf)
      i = _norm_axis(i, leaf.ndim)
      def fn(idx):
        idx = list(idx); idx.insert(i, conv_digits(vs, ax, leaf.axes[i])); return leaf.fn(tuple(idx))
      return SArr(leaf.axes[:i] + leaf.axes[i + 1:], fn, leaf.dtype)
    new = [a if i is None else trees.tree_map(lambda l, i=i: take(l, i), a) for a, i in zip(args, ia)]
    out = fun(*new)
    def put(leaf):
      leaf = asarr(leaf)
      o = _norm_axis(out_axes, leaf.ndim + 1)
      axes = list(leaf.axes); axes.insert(o, ax)
      def fn(idx):
        idx = list(idx); d = idx.pop(o)
        return subst(leaf.fn(tuple(idx)), list(zip(vs, d)))
      return SArr(axes, fn, leaf.dtype)
    return trees.tree_map(put, out)
  return wrapped


# -- fresh arrays -------------------------------------------------------------
def fresh_array(name, shape, dtype='float32'):
  dt = dtype_of(dtype)
  axes = [dim_atoms(s) for s in shape]
  n = sum(len(a) for a in axes)
  f = z3.Function(cur().fresh(name), *([z3.IntSort()] * n + [kind_sort(dt)]))
  def fn(idx):
    args = [d for i in idx for d in i]
    return f(*args) if args else f()
  a = SArr(axes, fn, dt, tag=name)
  a.decl = f
  return a
