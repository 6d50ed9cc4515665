"""Assumed contracts of flax.linen for layers under contract.

A Module is a record of its fields with a __call__; parameters are arbitrary arrays
(one per module and name); nn.vmap applies the method to every slice, with its own
slice of each parameter; random draws are arbitrary arrays, a new one per call.
"""
import dataclasses
import types as _types
import z3
from vc import core, tensor as T
from vc.core import Unsupported
from vc.loader import OVERRIDES


@dataclasses.dataclass(eq=False, repr=False)
class Module:
  name: object = dataclasses.field(default=None, kw_only=True)
  parent: object = dataclasses.field(default=None, kw_only=True)

  def __init_subclass__(cls, **kw):
    super().__init_subclass__(**kw)
    # annotations that shadow inherited ones without a default stay as they are.
    dataclasses.dataclass(eq=False, repr=False)(cls)

  def param(self, name, init, shape=(), dtype=None, **kw):
    c = core.cur()
    book = c.__dict__.setdefault('nn_params', {})
    shape = tuple(shape)
    key = (id(self), name)
    stack = c.__dict__.get('nn_vmap', [])
    full = list(shape)
    for dim, vs, axis in stack:
      if axis is not None: full.insert(axis if axis >= 0 else len(full) + 1 + axis, dim)
    if key not in book: book[key] = (self, T.fresh_array(name, tuple(full)))
    a = book[key][1]
    for dim, vs, axis in reversed(stack):
      if axis is None: continue
      i = T._norm_axis(axis, a.ndim)
      a = (lambda a, i, vs: T.SArr(a.axes[:i] + a.axes[i + 1:], lambda idx: a.fn(tuple(idx[:i]) + (vs,) + tuple(idx[i:])), a.dtype))(a, i, vs)
    return a

  def sow(self, *a, **k): return True
  def is_initializing(self): return False

  def make_rng(self, name='params'):
    c = core.cur()
    c.__dict__.setdefault('nn_rngs', []).append(name)
    return ('rng', name, len(c.nn_rngs))


def dense(features, use_bias=True, dtype=None, name=None, **kw):
  """nn.Dense: x @ kernel (+ bias)."""
  class D(Module):
    def __call__(self, x):
      x = T.asarr(x)
      k = self.param('kernel', None, (x.shape[-1], features))
      letters = 'abcdefgh'[:x.ndim - 1]
      y = T.einsum(f'{letters}x,xy->{letters}y', x, k)
      return y + self.param('bias', None, (features,)) if use_bias else y
  m = D(name=name)
  c = core.cur()
  # one module per (name, vmap depth): re-creation within one call is the same layer.
  c.__dict__.setdefault('nn_dense', []).append(m)
  return m


def vmap(fn, variable_axes=None, split_rngs=None, in_axes=0, out_axes=0, axis_size=None, **kw):
  if isinstance(fn, type): raise Unsupported('nn.vmap of a class')
  pa = (variable_axes or {}).get('params')
  def wrapped(self, *args):
    c = core.cur()
    c.nn_split = dict(split_rngs or {})
    holder = {}
    ia = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    first = next((T.asarr(a), i) for a, i in zip(args, ia) if i is not None)
    ax = first[0].axes[T._norm_axis(first[1], first[0].ndim)]
    dim = T.mkdim(ax)
    # the generic index of the mapped axis, seen through an iota mapped alongside.
    iota = T.SArr([ax], lambda idx: T.linear(idx[0], ax), 'int32')
    def run(n, *xs):
      vs = tuple(v for v in T.free_consts(n.fn(())).values())
      if len(vs) != len(ax): raise Unsupported('nn.vmap over this axis')
      c.__dict__.setdefault('nn_vmap', []).append((dim, vs, pa))
      try: return fn(self, *xs)
      finally: c.nn_vmap.pop()
    return T.vmap(run, in_axes=(0, *ia), out_axes=out_axes)(iota, *args)
  return wrapped


def normal(key=None, shape=(), dtype=None, **kw):
  """jax.random.normal: any values, for every key of its own."""
  c = core.cur()
  d = T.fresh_array('normal', tuple(shape))
  c.__dict__.setdefault('nn_draws', []).append((key, d))
  return d


OVERRIDES['flax.linen.Module'] = Module
OVERRIDES['flax.linen.compact'] = lambda f: f
OVERRIDES['flax.linen.nowrap'] = lambda f: f
OVERRIDES['flax.linen.vmap'] = vmap
OVERRIDES['flax.linen.Dense'] = dense
OVERRIDES['jax.random.normal'] = normal


def logsumexp(x, axis=None, keepdims=False, **kw):
  return T.log(T.reduce_sum(T.exp(x), axis, keepdims=keepdims))


OVERRIDES['jax.nn.logsumexp'] = logsumexp
OVERRIDES['jax.scipy.special.logsumexp'] = logsumexp
