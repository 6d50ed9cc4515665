"""Assumed contracts on dependencies (jax, jax.numpy, numpy, math, absl, ...).

Every override used in a run is reported in the evidence as an assumption.
"""
import math as _math
import types

import jax
import numpy as np
import z3

from vc import core, tensor as T
from vc.core import SInt, SReal, SBool, SNum, Sym, Unsupported, term, wrap, to_real, num
from vc.loader import OVERRIDES, override, proxy, Opaque


def deep_sym(x, d=0):
  if isinstance(x, (Sym, T.SArr)) or getattr(type(x), '__vc_symbolic__', False): return True
  if d < 4:
    if isinstance(x, (list, tuple)): return any(deep_sym(y, d + 1) for y in x)
    if isinstance(x, dict): return any(deep_sym(y, d + 1) for y in x.values())
  return False


# -- jnp / np -------------------------------------------------------------------
def _reduce_fn(f):
  def g(x, axis=None, **k):
    k.pop('out', None)
    return f(T.asarr(x), axis, **k)
  return g


def _prod(x, axis=None, dtype=None, **k):
  if hasattr(type(x), '__vc_prod__'): return x.__vc_prod__()
  if isinstance(x, (list, tuple)):
    r = 1
    for e in x: r = r * e
    return r
  raise Unsupported('prod of an array')


def _linalg_norm(*a, **k): raise Unsupported('norm')


def _isclose(*a, **k): raise Unsupported('isclose')


def _issub(a, b):
  import jax.numpy as jnp
  if not isinstance(a, T.DType):
    return jnp.issubdtype(a, b)
  kinds = {'floating': 'f', 'integer': 'iu', 'inexact': 'f', 'number': 'iuf', 'bool_': 'b', 'signedinteger': 'i', 'unsignedinteger': 'u'}
  n = getattr(b, '__name__', None) or str(b)
  if n not in kinds: raise Unsupported(f'issubdtype {b}')
  return a.kind in kinds[n]


def _dt(x):
  return T.dtype_of(x)


def _array(x, dtype=None, copy=None, **k):
  return T.asarr(x, dtype)


def _shape(x): return x.shape if isinstance(x, T.SArr) else T.asarr(x).shape


def _logical(op):
  def f(a, b):
    return T.elementwise(lambda x, y: op(T.cast_term(x, T.DTYPES['bool']), T.cast_term(y, T.DTYPES['bool'])), a, b, dtype='bool')
  return f


def _split(x, n, axis=0):
  x = T.asarr(x)
  axis = T._norm_axis(axis, x.ndim)
  if isinstance(n, T.SDim):
    # into a symbolic number of equal parts: a sequence of arrays.
    q = T._divide(x.axes[axis], n.atoms)
    if q is None: raise Unsupported('split into a symbolic number of parts')
    shp = list(x.shape); shp[axis:axis + 1] = [n, T.mkdim(q)]
    y = T.reshape(x, shp)
    from vc.seqs import SSeq
    return SSeq(n, lambda i: y[(slice(None),) * axis + (i,)], 'list')
  if not isinstance(n, int): raise Unsupported('split at symbolic positions')
  if n == 1: return [x]
  q = T._divide(x.axes[axis], (n,))
  if q is None: raise Unsupported('split')
  shp = list(x.shape); shp[axis:axis + 1] = [n, T.mkdim(q)]
  y = T.reshape(x, shp)
  return [y[(slice(None),) * axis + (j,)] for j in range(n)]


def _divop(f):
  def g(a, b): return T.elementwise(f, a, b)
  return g


NP = dict(
    asarray=_array, array=_array, reshape=lambda x, shape=None, *a, **k: T.reshape(T.asarr(x), shape if shape is not None else k['newshape']),
    transpose=lambda x, axes=None: T.transpose(x, axes), swapaxes=T.swapaxes, moveaxis=T.moveaxis,
    expand_dims=T.expand_dims, squeeze=T.squeeze, broadcast_to=T.broadcast_to, repeat=T.repeat, tile=T.tile,
    broadcast_shapes=T.broadcast_shapes, stack=T.stack, concatenate=T.concatenate, roll=T.roll, full=T.full, full_like=T.full_like, arange=T.arange, eye=T.eye,
    zeros=lambda shape, dtype=None: T.full(shape, 0, dtype or 'float32'),
    ones=lambda shape, dtype=None: T.full(shape, 1, dtype or 'float32'),
    zeros_like=lambda x, dtype=None, shape=None: T.full_like(x, 0, dtype, shape),
    ones_like=lambda x, dtype=None, shape=None: T.full_like(x, 1, dtype, shape),
    sum=_reduce_fn(T.reduce_sum), mean=_reduce_fn(T.reduce_mean), max=_reduce_fn(T.reduce_max), min=_reduce_fn(T.reduce_min),
    amax=_reduce_fn(T.reduce_max), amin=_reduce_fn(T.reduce_min), all=_reduce_fn(T.reduce_all), any=_reduce_fn(T.reduce_any),
    cumsum=T.cumsum, argsort=T.argsort, sort=T.sort_arr, argmax=T.argmax, einsum=T.einsum, where=T.where, clip=T.clip,
    minimum=T.minimum, maximum=T.maximum, abs=T.absolute, absolute=T.absolute, sign=T.sign, exp=T.exp, log=T.log, sqrt=T.sqrt,
    square=T.square, logical_and=_logical(lambda a, b: z3.And(a, b)), logical_or=_logical(lambda a, b: z3.Or(a, b)),
    logical_not=lambda x: ~T.asarr(x).astype('bool'), add=lambda a, b: T.asarr(a) + b, subtract=lambda a, b: T.asarr(a) - b,
    multiply=lambda a, b: T.asarr(a) * b, divide=lambda a, b: T.asarr(a) / b, true_divide=lambda a, b: T.asarr(a) / b,
    equal=lambda a, b: T.asarr(a) == b, not_equal=lambda a, b: T.asarr(a) != b, greater=lambda a, b: T.asarr(a) > b,
    less=lambda a, b: T.asarr(a) < b, greater_equal=lambda a, b: T.asarr(a) >= b, less_equal=lambda a, b: T.asarr(a) <= b,
    ravel=lambda x: T.asarr(x).ravel(), shape=_shape, ndim=lambda x: T.asarr(x).ndim, size=lambda x: T.asarr(x).size,
    prod=_prod, split=_split, negative=lambda x: -T.asarr(x), flip=None, take=None,
    float32=T.DTYPES['float32'], bfloat16=T.DTYPES['bfloat16'], int32=T.DTYPES['int32'], bool_=T.DTYPES['bool'],
    float16=T.DTYPES['float16'], float64=T.DTYPES['float64'], int64=T.DTYPES['int64'], uint8=T.DTYPES['uint8'],
    uint32=T.DTYPES['uint32'], int8=T.DTYPES['int8'], issubdtype=_issub,
)
NP = {k: v for k, v in NP.items() if v is not None}
NP.update(matmul=T.matmul, dot=T.dot, vdot=T.vdot, outer=T.outer, inner=lambda a, b: T.matmul(a, T.swapaxes(T.asarr(b), -1, -2)) if T.asarr(a).ndim == T.asarr(b).ndim == 2 else T.matmul(a, b),
          power=lambda a, b: T.asarr(a) ** b, floor_divide=lambda a, b: T.asarr(a) // b, mod=lambda a, b: T.asarr(a) % b, remainder=lambda a, b: T.asarr(a) % b,
          reciprocal=lambda x: 1. / T.asarr(x), count_nonzero=_reduce_fn(lambda x, axis=None, **k: T.reduce_sum((x != 0).astype('int32'), axis, **k)))


def _take(x, i, axis=None, **k):
  if axis is None: raise Unsupported('take')
  x = T.asarr(x); axis = T._norm_axis(axis, x.ndim)
  return T.getitem(x, (slice(None),) * axis + (T.asarr(i),))


NP['take'] = _take


def _take_along(x, i, axis, **k):
  x, i = T.asarr(x), T.asarr(i)
  axis = T._norm_axis(axis, x.ndim)
  if x.ndim != i.ndim: raise ValueError('take_along_axis: ndim mismatch')
  axes = list(i.axes)
  def fn(idx):
    t = num(i.fn(idx))
    src = []
    for j in range(x.ndim):
      if j == axis: src.append(T.digits_of(T._clampidx(t, x.axes[j]), x.axes[j]))
      else: src.append(() if x.axes[j] == () else T.conv_digits(idx[j], i.axes[j], x.axes[j]))
    return x.fn(tuple(src))
  return T.SArr(axes, fn, x.dtype)


NP['take_along_axis'] = _take_along

for _k, _v in NP.items():
  OVERRIDES[f'jax.numpy.{_k}'] = _v
OVERRIDES['jax.numpy.inf'] = _math.inf


def _np_or(name, symf):
  real = getattr(np, name, None)
  def f(*a, **k):
    if deep_sym(a) or deep_sym(k) or real is None: return symf(*a, **k)
    return real(*a, **k)
  return f


for _k, _v in NP.items():
  if isinstance(_v, T.DType): continue
  OVERRIDES[f'numpy.{_k}'] = _np_or(_k, _v)

for _k in ('astype',):
  OVERRIDES[f'jax.numpy.{_k}'] = lambda x, dt: T.asarr(x).astype(dt)

# -- jax.lax / jax.nn ------------------------------------------------------------
OVERRIDES['jax.lax.top_k'] = T.top_k
OVERRIDES['jax.lax.stop_gradient'] = lambda x: x
OVERRIDES['jax.lax.with_sharding_constraint'] = lambda x, s: x
OVERRIDES['jax.nn.one_hot'] = lambda x, num_classes, *, dtype=None, axis=-1: T.one_hot(x, num_classes, dtype, axis)
OVERRIDES['jax.nn.softmax'] = T.softmax
OVERRIDES['jax.vmap'] = T.vmap


# assumed over the reals (no overflow): log_sigmoid(x) = -log(1 + exp(-x)), softplus(x) = log(1 + exp(x)), sigmoid(x) = 1 / (1 + exp(-x)).
@override('jax.nn.log_sigmoid')
def log_sigmoid(x): return -T.log(1. + T.exp(-T.asarr(x)))


@override('jax.nn.softplus')
def softplus(x): return T.log(1. + T.exp(T.asarr(x)))


@override('jax.nn.sigmoid')
def sigmoid(x): return 1. / (1. + T.exp(-T.asarr(x)))


@override('jax.nn.relu')
def relu(x): return T.maximum(x, 0)


@override('jax.numpy.linalg.norm')
def norm(x, ord=None, axis=None, keepdims=False):
  x = T.asarr(x)
  if ord not in (None, 2) or (ord is not None and axis is None and x.ndim != 1) or isinstance(axis, (tuple, list)): raise Unsupported('norm')
  return T.sqrt(T.reduce_sum(T.square(x), axis, keepdims=keepdims))


OVERRIDES['jax.jit'] = lambda f=None, **k: (lambda g: g) if f is None else f


@override('jax.lax.rsqrt')
def _rsqrt(x): return T.rsqrt(x)


@override('jax.lax.cond')
def _cond(p, t, f, *ops):
  if bool(p): return t(*ops)
  return f(*ops)


# -- math -----------------------------------------------------------------------
def _t(x):
  return term(x) if (isinstance(x, Sym) or hasattr(type(x), '__vc_scalar__')) else None


@override('math.ceil')
def _ceil(x):
  t = _t(x)
  if t is None: return _math.ceil(x)
  if t.sort() == z3.IntSort(): return wrap(t)
  return wrap(-z3.ToInt(-to_real(t)))


OVERRIDES['numpy.ceil'] = lambda x: _ceil(x) if _t(x) is not None else np.ceil(x)
OVERRIDES['numpy.floor'] = lambda x: _floor(x) if _t(x) is not None else np.floor(x)


@override('math.floor')
def _floor(x):
  t = _t(x)
  if t is None: return _math.floor(x)
  if t.sort() == z3.IntSort(): return wrap(t)
  return wrap(z3.ToInt(to_real(t)))


@override('math.prod')
def _mprod(it, start=1):
  for x in it: start = start * x
  return start


@override('math.log2')
def _log2(x):
  t = _t(x)
  if t is None: return _math.log2(x)
  return SReal(z3.Function('log2', z3.RealSort(), z3.RealSort())(to_real(num(t))))


@override('math.sqrt')
def _msqrt(x):
  t = _t(x)
  if t is None: return _math.sqrt(x)
  return SReal(z3.Function('sqrt', z3.RealSort(), z3.RealSort())(to_real(num(t))))


# -- logging ---------------------------------------------------------------------
class _Log:
  def __getattr__(self, a): return lambda *x, **k: None


OVERRIDES['absl.logging'] = _Log()


class Over:
  """A library namespace with some functions replaced by their assumed contracts."""

  def __init__(self, real, **kw):
    self.__dict__['_real'] = real
    self.__dict__.update(kw)
  def __getattr__(self, a):
    if a.startswith('__'): raise AttributeError(a)
    return getattr(self.__dict__['_real'], a)
