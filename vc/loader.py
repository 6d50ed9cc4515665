"""Loads the real modules of /repo for symbolic execution.

load('vmoe.moe') compiles /repo/vmoe/moe.py as it is now (no rewriting unless a
loop contract asks for it, see loops.py) and executes it with
  * `__builtins__` whose len/isinstance/int/... understand symbolic values,
  * `__import__` that loads other vmoe modules the same way, and gives library
    modules as proxies: overridden attributes are the assumed contracts of
    vc/stubs.py, everything else is the real library.
"""
import ast
import builtins
import fractions
import importlib
import math
import os
import sys
import types

import z3

from vc import core
from vc.core import SInt, SReal, SBool, SStr, SObj, Sym, Unsupported, term, wrap

REPO = os.environ.get('VERIF_REPO', '/repo')


class Opaque:
  """Something outside the verifier's reach: using it is Unsupported."""

  def __init__(self, name, loading=None):
    self.__dict__['_name'] = name

  def __getattr__(self, a):
    if a.startswith('__') and a.endswith('__'):
      raise AttributeError(a)
    return Opaque(f'{self._name}.{a}')

  def __call__(self, *a, **k):
    if LOADING[0]:
      # decorator or module-level construction.
      if len(a) == 1 and not k and isinstance(a[0], (types.FunctionType, type)):
        return a[0]
      return Opaque(f'{self._name}()')
    raise Unsupported(f'call of {self._name}')

  def __getitem__(self, k):
    return Opaque(f'{self._name}[]')

  def __or__(self, o): return self
  def __ror__(self, o): return self
  def __mro_entries__(self, bases): return (_OpaqueBase,)
  def __repr__(self): return f'<opaque {self._name}>'


class _OpaqueBase:
  pass


LOADING = [0]
OVERRIDES = {}        # dotted name -> object (assumed contracts on dependencies)
USED = set()          # dotted names of overrides that were used
MODULES = {}
FUNCS = []            # (module, qualname) of functions executed


def override(name):
  def deco(f):
    OVERRIDES[name] = f
    return f
  return deco


class Proxy:
  """Lazy proxy of a library module."""

  def __init__(self, name):
    self.__dict__['_vc_name'] = name
    self.__dict__['_vc_real'] = None

  def _vc_mod(self):
    if self._vc_real is None:
      try:
        self.__dict__['_vc_real'] = importlib.import_module(self._vc_name)
      except ImportError:
        self.__dict__['_vc_real'] = Opaque(self._vc_name)
    return self._vc_real

  def __getattr__(self, a):
    full = f'{self._vc_name}.{a}'
    if full in OVERRIDES:
      USED.add(full)
      return OVERRIDES[full]
    if full in PROXIES or any(k.startswith(full + '.') for k in OVERRIDES):
      return proxy(full)
    real = getattr(self._vc_mod(), a, None)
    if real is None:
      try:
        real = importlib.import_module(full)
      except ImportError:
        if isinstance(self._vc_mod(), Opaque):
          return Opaque(full)
        raise AttributeError(full)
    if isinstance(real, types.ModuleType):
      return proxy(full)
    if self._vc_name in NUMERIC and callable(real) and not isinstance(real, type) and 'Scalar' not in type(real).__name__:
      if full not in GUARDS: GUARDS[full] = Guard(real, full)
      return GUARDS[full]
    return real

  def __repr__(self): return f'<proxy {self._vc_name}>'


class Guard:
  """A numerical library function without a contract: its failures on symbolic values say nothing about the code."""

  def __init__(self, f, name): self.__dict__.update(_f=f, _name=name)
  def __getattr__(self, a): return getattr(self._f, a)
  def __eq__(self, o): return self is o or self._f == (o._f if isinstance(o, Guard) else o)
  def __hash__(self): return hash(self._f)
  def __call__(self, *a, **k):
    from vc.stubs import deep_sym
    if not deep_sym(a) and not deep_sym(k): return self._f(*a, **k)
    try: return self._f(*a, **k)
    except Unsupported: raise
    except Exception as e: raise Unsupported(f'{self._name} of symbolic values: {type(e).__name__}') from e


NUMERIC = ('jax.numpy', 'jax.numpy.linalg', 'jax.nn', 'jax.lax', 'numpy', 'numpy.linalg', 'jax.scipy.special', 'jax.random')
GUARDS = {}
PROXIES = {}


def proxy(name):
  if name not in PROXIES:
    PROXIES[name] = Proxy(name)
  return PROXIES[name]


STDLIB = set(sys.stdlib_module_names)
STD_PROXIED = {'math', 'time', 'multiprocessing', 'os', 'random', 're', 'itertools', 'functools', 'datetime'}


class RepoPkg(types.SimpleNamespace):
  """Namespace for vmoe packages."""

  def __init__(self, name):
    self.__dict__['_vc_pkg'] = name

  def __getattr__(self, a):
    if a.startswith('__'):
      raise AttributeError(a)
    full = f'{self._vc_pkg}.{a}'
    if full in OVERRIDES:
      USED.add(full); return OVERRIDES[full]
    return load(full)


def _find(name):
  p = os.path.join(REPO, *name.split('.'))
  if os.path.isdir(p):
    return 'pkg', p
  if os.path.isfile(p + '.py'):
    return 'mod', p + '.py'
  return None, None


def _import(name, globals=None, locals=None, fromlist=(), level=0):
  if level:
    raise Unsupported('relative import')
  top = name.split('.')[0]
  if top == 'vmoe':
    m = load(name)
    if not fromlist:
      return load('vmoe')
    return _From(name, m)
  if top in STDLIB and top not in STD_PROXIED:
    return builtins.__import__(name, None, None, fromlist, 0)
  if not fromlist:
    if '.' in name:
      proxy(name)
    return proxy(top)
  return _From(name, proxy(name))


class _From:
  """Result of `from X import a`: attribute lookup with submodule fallback."""

  def __init__(self, name, m):
    self._n, self._m = name, m

  def __getattr__(self, a):
    if a.startswith('__'):
      raise AttributeError(a)
    full = f'{self._n}.{a}'
    if full in OVERRIDES:
      USED.add(full); return OVERRIDES[full]
    return getattr(self._m, a)


def load(name, transform=None):
  """The module `name` of /repo, compiled from its current source."""
  if name in OVERRIDES:
    return OVERRIDES[name]
  if name in MODULES:
    return MODULES[name]
  if '.' in name:
    load(name.rsplit('.', 1)[0])      # the package first, as Python does
    if name in MODULES: return MODULES[name]
  kind, path = _find(name)
  if kind is None:
    raise Unsupported(f'no module {name} in {REPO}')
  if kind == 'pkg':
    ns = RepoPkg(name)
    MODULES[name] = ns
    init = os.path.join(path, '__init__.py')
    if os.path.isfile(init):
      m = _exec(name, init, ns.__dict__)
    return ns
  m = types.ModuleType(name)
  MODULES[name] = m
  try:
    _exec(name, path, m.__dict__)
  except BaseException:
    del MODULES[name]
    raise
  if '.' in name:
    parent, leaf = name.rsplit('.', 1)
    setattr(load(parent), leaf, m)
  return m


TRANSFORMS = {}       # module name -> function(ast.Module) -> ast.Module


def _exec(name, path, ns):
  with open(path) as f:
    src = f.read()
  try:
    tree = ast.parse(src, path)
  except SyntaxError as e:
    raise Unsupported(f'syntax error in {path}: {e}')
  if name in TRANSFORMS:
    tree = TRANSFORMS[name](tree)
    ast.fix_missing_locations(tree)
  code = compile(tree, path, 'exec')
  ns['__name__'] = name
  ns['__file__'] = path
  ns['__builtins__'] = BUILTINS
  LOADING[0] += 1
  # Real modules need sys.modules entries for dataclasses' annotations lookup.
  old = sys.modules.get(name)
  shadow = types.ModuleType(name); shadow.__dict__.update({'__builtins__': builtins.__dict__})
  shadow.__dict__.update(ns)
  sys.modules[name] = shadow
  try:
    exec(code, ns)
  finally:
    LOADING[0] -= 1
    if old is None:
      del sys.modules[name]
    else:
      sys.modules[name] = old
  return ns


def reset():
  MODULES.clear()


# ----------------------------------------------------------------------------
# Builtins aware of symbolic values.
# ----------------------------------------------------------------------------
def b_len(x):
  f = getattr(type(x), '__vc_len__', None)
  if f is not None:
    return f(x)
  return builtins.len(x)


def _symtypes(x):
  from vc import tensor
  if isinstance(x, SBool): return (bool,)
  if isinstance(x, SInt): return (int,)
  if isinstance(x, SReal): return (float,)
  if isinstance(x, SStr): return (str,)
  if isinstance(x, tensor.SArr):
    import jax, numpy as np
    return (np.ndarray,) if x.flavor == 'np' else (jax.Array,)
  f = getattr(type(x), '__vc_types__', None)
  if f is not None: return f(x)
  return ()


def b_isinstance(x, cls):
  if builtins.isinstance(cls, tuple):
    return any(b_isinstance(x, c) for c in cls)
  import types as _t
  if builtins.isinstance(cls, _t.UnionType):
    return any(b_isinstance(x, c) for c in cls.__args__)
  if builtins.isinstance(cls, Opaque):
    if builtins.isinstance(x, (int, float, str, tuple, list, dict, type(None), Sym)): return False
    raise Unsupported(f'isinstance(_, {cls!r})')
  for t in _symtypes(x):
    try:
      if issubclass(t, cls): return True
    except TypeError:
      pass
  f = getattr(cls, '__vc_instancecheck__', None)
  if f is not None: return f(x)
  if builtins.isinstance(cls, (_TypeMeta, _TypeObj)):
    cls = cls._real
  for t in _symtypes(x):
    try:
      if issubclass(t, cls): return True
    except TypeError:
      pass
  return builtins.isinstance(x, cls)


def _trunc(t):
  if t.sort() == z3.IntSort(): return t
  if t.sort() == z3.BoolSort(): return core.to_int(t)
  return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


class _TypeMeta(type):
  def __instancecheck__(cls, x): return b_isinstance(x, cls._real)
  def __subclasscheck__(cls, c): return issubclass(c, cls._real)
  def __eq__(cls, o): return o is cls or o is cls._real
  def __hash__(cls): return hash(cls._real)
  def __getitem__(cls, k): return cls._real[k]
  def __or__(cls, o): return cls._real | (o._real if builtins.isinstance(o, _TypeMeta) else o)
  def __ror__(cls, o): return (o._real if builtins.isinstance(o, _TypeMeta) else o) | cls._real
  def __getattr__(cls, a): return getattr(cls._real, a)


def _mk(real, conv):
  class T(metaclass=_TypeMeta):
    _real = real
    def __new__(cls, *a, **k):
      return conv(*a, **k)
  T.__name__ = T.__qualname__ = real.__name__
  return T


def _scalar(x):
  return term(x) if (isinstance(x, Sym) or hasattr(type(x), '__vc_scalar__')) else None


def c_int(x=0, *a):
  t = _scalar(x)
  if t is not None:
    if isinstance(x, SStr): raise Unsupported('int(str)')
    return wrap(_trunc(t)) if not hasattr(x, 'atoms') else x
  return int(x, *a)


def c_float(x=0.0):
  t = _scalar(x)
  if t is not None:
    return SReal(core.to_real(core.num(t)))
  return float(x)


def c_bool(x=False):
  if isinstance(x, SBool): return x
  return bool(x)


def c_str(x=''):
  if isinstance(x, SStr): return x
  return str(x)


int_type = _mk(int, c_int)
float_type = _mk(float, c_float)
bool_type = _mk(bool, c_bool)
str_type = str


def b_round(x, n=None):
  t = _scalar(x)
  if t is None: return round(x) if n is None else round(x, n)
  if n is not None: raise Unsupported('round with digits')
  if t.sort() == z3.IntSort(): return x
  fl = z3.ToInt(t)
  fr = t - z3.ToReal(fl)
  half = z3.RealVal('1/2')
  return wrap(z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))


def b_abs(x): return abs(x)


def _minmax(is_max):
  def f(*a, key=None, default=core):
    if len(a) == 1:
      it = a[0]
      g = getattr(type(it), '__vc_max__' if is_max else '__vc_min__', None)
      if g is not None: return g(it, key=key, default=default)
      a = list(it)
      if not a:
        if default is core: raise ValueError(f'{"max" if is_max else "min"}() iterable argument is empty')
        return default
    if key is not None or not any(isinstance(x, Sym) for x in a):
      # comparisons on symbolic keys branch.
      kw = {} if key is None else {'key': key}
      return max(a, **kw) if is_max else min(a, **kw)
    r = a[0]
    for x in a[1:]:
      c = (x > r) if is_max else (x < r)
      if isinstance(c, bool): r = x if c else r
      else: r = core.ite(c, x, r)
    return r
  return f


def b_sum(it, start=0):
  g = getattr(type(it), '__vc_sum__', None)
  if g is not None: return g(it, start)
  for x in it: start = start + x
  return start


def b_range(*a):
  if any(isinstance(x, Sym) for x in a):
    from vc import seqs
    return seqs.SRange(*a)
  return range(*[x.__index__() if not isinstance(x, int) else x for x in a])


def b_sorted(it, *, key=None, reverse=False):
  g = getattr(type(it), '__vc_sorted__', None)
  if g is not None: return g(it, key=key, reverse=reverse)
  return sorted(it, key=key, reverse=reverse)


def b_zip(*its, strict=False):
  if any(hasattr(type(i), '__vc_zip__') for i in its):
    return next(i for i in its if hasattr(type(i), '__vc_zip__')).__vc_zip__(its, strict)
  return zip(*its, strict=strict)


def b_enumerate(it, start=0):
  g = getattr(type(it), '__vc_enumerate__', None)
  if g is not None: return g(it, start)
  return enumerate(it, start)


def b_map(f, *its):
  if any(hasattr(type(i), '__vc_map__') for i in its):
    return next(i for i in its if hasattr(type(i), '__vc_map__')).__vc_map__(f, its)
  return map(f, *its)


def b_divmod(a, b):
  if isinstance(a, Sym) or isinstance(b, Sym): return a // b, a % b
  return divmod(a, b)


def _coll(real, hook):
  def conv(*a, **k):
    if a:
      g = getattr(type(a[0]), hook, None)
      if g is not None: return g(a[0])
    return real(*a, **k)
  return _TypeObj(real, conv)


class _TypeObj:
  """Stand-in for a builtin collection type; subclassing it subclasses the real type."""

  def __init__(self, real, conv):
    self.__dict__.update(_real=real, _conv=conv)
    self.__dict__['__new__'] = real.__new__
  def __call__(self, *a, **k): return self._conv(*a, **k)
  def __instancecheck__(self, x): return b_isinstance(x, self._real)
  def __subclasscheck__(self, c): return issubclass(c, self._real)
  def __mro_entries__(self, bases): return (self._real,)
  def __eq__(self, o): return o is self or o is self._real
  def __hash__(self): return hash(self._real)
  def __getitem__(self, k): return self._real[k]
  def __or__(self, o): return self._real | getattr(o, '_real', o)
  def __ror__(self, o): return getattr(o, '_real', o) | self._real
  def __getattr__(self, a): return getattr(self._real, a)
  def __repr__(self): return repr(self._real)


tuple_type = _coll(tuple, '__vc_tuple__')
list_type = _coll(list, '__vc_list__')
set_type = _coll(set, '__vc_set__')
dict_type = _coll(dict, '__vc_dict__')


def b_any(it):
  g = getattr(type(it), '__vc_any__', None)
  return g(it) if g is not None else any(it)


def b_all(it):
  g = getattr(type(it), '__vc_all__', None)
  return g(it) if g is not None else all(it)


def b_next(it, *d):
  g = getattr(type(it), '__vc_next__', None)
  return g(it, *d) if g is not None else next(it, *d)


def b_iter(it, *d):
  g = getattr(type(it), '__vc_iter__', None)
  return g(it) if g is not None else iter(it, *d)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(
    __import__=_import, len=b_len, isinstance=b_isinstance, int=int_type, float=float_type,
    bool=bool_type, round=b_round, max=_minmax(True), min=_minmax(False), sum=b_sum, range=b_range,
    sorted=b_sorted, zip=b_zip, enumerate=b_enumerate, map=b_map, divmod=b_divmod,
    tuple=tuple_type, list=list_type, set=set_type, dict=dict_type, any=b_any, all=b_all, next=b_next, iter=b_iter)
# `str` stays a real type.
BUILTINS['print'] = lambda *a, **k: None
