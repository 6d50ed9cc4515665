"""Core of the verifier: symbolic scalars, path exploration, obligations.

The functions under contract are the *unmodified* functions of /repo, compiled
from /repo's current source on every run (see loader.py) and executed by CPython
on symbolic values.  Control flow over symbolic conditions is explored path by
path (re-execution with a decision prefix), so for every path we get the path
condition, the returned symbolic value (or the raised exception) and the proof
obligations.  Obligations are discharged by z3 (and optionally cvc5).
"""
import builtins
import fractions
import itertools
import math
import time

import z3

z3.set_param('model.completion', True)


class Unsupported(BaseException):
  """The code uses something outside the verifier's reach (never a violation)."""


class PathEnd(BaseException):
  """The current path ends here (assumption false, or loop cut point)."""


class ContractError(Exception):
  """A contract (harness) bug."""


# ----------------------------------------------------------------------------
# Context: one per explored path.
# ----------------------------------------------------------------------------
class Ctx:

  def __init__(self, prefix=(), base=()):
    self.prefix = list(prefix)
    self.trace = []
    self.pending = []
    self.pc = list(base)
    self.obligations = []   # (name, goal, hyps, hints)
    self.theory = {}        # decl name -> TheoryFn
    self.ivars = {}         # z3 const id -> (const, atom)
    self.cands = {}         # atom key -> list of terms
    self.names = itertools.count()
    self.notes = []
    self.assumed = []       # names of assumed contracts used
    self.solver_s = 0.0
    self.divmods = []
    self.rdivs = []
    self.prods = []
    self.picks = {}         # constants ranging over a few numerals

  def fresh(self, base):
    return f'{base}!{next(self.names)}'


_CUR = [None]


def cur() -> Ctx:
  if _CUR[0] is None:
    raise ContractError('no active path context')
  return _CUR[0]


def active():
  return _CUR[0] is not None


ASSUMED = set()       # assumptions declared by contracts (reported)


def assumption(text):
  ASSUMED.add(text)


STATS = dict(solver_s=0.0, queries=0, paths=0)


def _check(exprs, timeout_ms):
  s = z3.Solver()
  s.set('timeout', int(timeout_ms))
  s.add(*exprs)
  t = time.time()
  r = s.check()
  STATS['solver_s'] += time.time() - t
  STATS['queries'] += 1
  return r, s


_NL = {}


def nonlinear(e):
  """True if the expression multiplies/divides two non-constants, or quantifies."""
  i = e.get_id()
  r = _NL.get(i)
  if r is not None and r[0].eq(e): return r[1]
  v = False
  if z3.is_quantifier(e): v = True
  elif z3.is_app(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL and sum(not _isnum(c) for c in e.children()) > 1: v = True
    elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not _isnum(e.arg(1)): v = True
    else: v = any(nonlinear(c) for c in e.children())
  _NL[i] = (e, v)
  return v


_MUL = {}


def multiplies(e):
  """True if the expression multiplies/divides two non-constants, also under quantifiers."""
  i = e.get_id()
  r = _MUL.get(i)
  if r is not None and r[0].eq(e): return r[1]
  if z3.is_quantifier(e): v = multiplies(e.body())
  elif z3.is_app(e):
    k = e.decl().kind()
    v = (k == z3.Z3_OP_MUL and sum(not _isnum(c) for c in e.children()) > 1) or k == z3.Z3_OP_POWER or \
        (k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not _isnum(e.arg(1))) or any(multiplies(c) for c in e.children())
  else: v = False
  _MUL[i] = (e, v)
  return v


def feasible(c, conds):
  """unsat | sat | unknown; the non-linear facts are only used if cheap."""
  exprs = c.pc + conds
  if getattr(c, 'linear_decide', False):
    exprs = [e for e in exprs if not nonlinear(e)]
  return _check(exprs, 2000)[0]


def decide(cond) -> bool:
  """Branches on a symbolic condition."""
  if isinstance(cond, bool):
    return cond
  c = cur()
  cond = z3.simplify(cond)
  if z3.is_true(cond):
    return True
  if z3.is_false(cond):
    return False
  i = len(c.trace)
  if i < len(c.prefix):
    v, forced = c.prefix[i]
  else:
    r_t = feasible(c, [cond])
    if r_t == z3.unsat:
      v, forced = False, True
    else:
      r_f = feasible(c, [z3.Not(cond)])
      if r_f == z3.unsat:
        v, forced = True, True
      else:
        v, forced = True, False
        c.pending.append(c.trace + [(False, False)])
  c.trace.append((v, forced))
  c.pc.append(cond if v else z3.Not(cond))
  return v


def entailed(cond) -> bool:
  """Whether all facts of the path imply cond (no branching; recorded in the trace so that
  re-execution repeats the answer)."""
  if isinstance(cond, bool): return cond
  c = cur()
  i = len(c.trace)
  v = c.prefix[i][0] if i < len(c.prefix) else _check([*c.pc, z3.Not(cond)], 2000)[0] == z3.unsat
  c.trace.append((v, True))
  if v: c.pc.append(cond)
  return v


def choose(n, label='') -> int:
  """Non-deterministic choice among n alternatives (explored exhaustively)."""
  c = cur()
  for k in range(n - 1):
    i = len(c.trace)
    if i < len(c.prefix):
      v, forced = c.prefix[i]
    else:
      v, forced = True, False
      c.pending.append(c.trace + [(False, False)])
    c.trace.append((v, forced))
    if v:
      return k
  return n - 1


def assume(cond):
  cond = as_z3bool(cond)
  if z3.is_false(z3.simplify(cond)):
    raise PathEnd()
  cur().pc.append(cond)
  if hasattr(cur(), 'soft'): cur().soft.append(cond)


def obligation(name, goal, hints=None, extra=()):
  """Records a proof obligation at the current point of the current path."""
  c = cur()
  c.obligations.append((name, as_z3bool(goal), list(c.pc) + [as_z3bool(e) for e in extra], hints or {}))


def merge_bool(fn, quantified=False):
  """Truth of fn() as one formula: its branches are explored locally and joined.

  With quantified=True the formula may be placed under a quantifier (no ghost
  constants are introduced for divisions)."""
  c = cur()
  stack, outs = [[]], []
  n0 = len(c.pc)
  while stack:
    prefix = stack.pop()
    sub = Ctx(prefix, c.pc)
    for k, v in c.__dict__.items():
      if k not in ('prefix', 'trace', 'pending', 'pc', 'obligations'): sub.__dict__[k] = v
    if quantified: del sub.__dict__['divmods']
    sub.soft = []
    sub.in_merge = True
    _CUR[0] = sub
    try:
      v = fn()
      v = as_z3bool(v) if not isinstance(v, SNum) or isinstance(v, SBool) else (v.t != _zero(v.t))
    except PathEnd:
      v = None
    finally:
      _CUR[0] = c
    if sub.obligations: raise Unsupported('obligation inside a merged condition')
    stack.extend(sub.pending)
    if len(outs) > 64: raise Unsupported('too many branches in a merged condition')
    facts = [p for p in sub.pc[n0:]]
    soft = {x.get_id() for x in sub.soft}
    hard = [p for p in facts if p.get_id() not in soft]
    if soft and quantified: raise Unsupported('definition under a quantifier')
    for p in facts:
      if p.get_id() in soft: c.pc.append(p if not hard else z3.Implies(z3.And(*hard), p))
    if v is not None: outs.append(z3.And(*hard, v))
  return z3.simplify(z3.Or(*outs)) if outs else z3.BoolVal(False)


class Path:

  def __init__(self, ctx, kind, value):
    self.ctx, self.kind, self.value = ctx, kind, value

  @property
  def pc(self):
    return self.ctx.pc


def explore(thunk, max_paths=4000, deadline=None):
  """Runs thunk() on every path. Yields Path(kind in return|raise|end)."""
  stack = [[]]
  n = 0
  while stack:
    prefix = stack.pop()
    ctx = Ctx(prefix)
    old = _CUR[0]
    _CUR[0] = ctx
    try:
      try:
        value = thunk()
        kind = 'return'
      except PathEnd:
        kind, value = 'end', None
      except (Unsupported, ContractError):
        raise
      except (AssertionError, ArithmeticError, LookupError, TypeError,
              ValueError, AttributeError, RuntimeError, NotImplementedError,
              StopIteration, OSError) as e:
        kind, value = 'raise', e
      stack.extend(ctx.pending)
      n += 1
      STATS['paths'] += 1
      if n > max_paths:
        raise Unsupported(f'more than {max_paths} paths')
      if deadline is not None and time.time() > deadline:
        raise Unsupported('path exploration deadline')
      yield Path(ctx, kind, value)
    finally:
      _CUR[0] = old


# ----------------------------------------------------------------------------
# Symbolic scalars.
# ----------------------------------------------------------------------------
def is_sym(x):
  return isinstance(x, Sym)


def q(x):
  """Python number to z3 numeral (floats exactly, as rationals)."""
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, float):
    if not math.isfinite(x):
      raise Unsupported(f'non-finite constant {x}')
    f = fractions.Fraction(x)
    # Constants such as 0.1 or 1e-6 denote the decimal the author wrote.
    g = fractions.Fraction(repr(x))
    f = g
    return z3.RealVal(f'{f.numerator}/{f.denominator}')
  if isinstance(x, fractions.Fraction):
    return z3.RealVal(f'{x.numerator}/{x.denominator}')
  raise Unsupported(f'cannot convert {type(x).__name__} to a term')


def term(x):
  """z3 term of a Python or symbolic scalar."""
  if isinstance(x, Sym):
    return x.t
  if isinstance(x, z3.ExprRef):
    return x
  if hasattr(x, '__vc_scalar__'):
    return x.__vc_scalar__()
  try:
    import numpy as np
    if isinstance(x, np.generic):
      x = x.item()
  except ImportError:
    pass
  return q(x)


def as_z3bool(x):
  if isinstance(x, SBool):
    return x.t
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, z3.BoolRef):
    return x
  if hasattr(x, '__vc_scalar__'):
    return x.__vc_scalar__()
  raise ContractError(f'not a boolean: {x!r}')


def to_real(t):
  if t.sort() == z3.IntSort():
    if z3.is_int_value(t):
      return z3.RealVal(t.as_long())
    return z3.ToReal(t)
  if t.sort() == z3.BoolSort():
    return z3.If(t, z3.RealVal(1), z3.RealVal(0))
  return t


def to_int(t):
  if t.sort() == z3.BoolSort():
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))
  return t


def unify(a, b):
  """Coerces two terms to a common sort (Bool < Int < Real)."""
  if a.sort() == b.sort():
    return a, b
  srts = (a.sort(), b.sort())
  if z3.RealSort() in srts:
    return to_real(a), to_real(b)
  if z3.IntSort() in srts:
    return to_int(a), to_int(b)
  raise Unsupported(f'incompatible sorts {srts}')


def num(t):
  return to_int(t) if t.sort() == z3.BoolSort() else t


def wrap(t):
  if not isinstance(t, z3.ExprRef):
    return t
  s = t.sort()
  if s == z3.BoolSort():
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)
  if s == z3.IntSort():
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)
  if s == z3.RealSort():
    return SReal(t)
  if s == z3.StringSort():
    return SStr(t)
  return SObj(t)


class Sym:
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return f'<{self.t}>'

  def __format__(self, spec):
    return repr(self)

  def __hash__(self):
    # Opt-in: with all keys symbolic, a constant hash makes dict/set lookups
    # compare keys with (branching) symbolic equality.
    if _CUR[0] is not None and getattr(_CUR[0], 'sym_hash', False): return 0
    raise Unsupported('hash of a symbolic value')


def _b(op):
  def f(self, other):
    if not _numlike(other):
      return NotImplemented
    return op(self.t, term(other))
  return f


def _r(op):
  def f(self, other):
    if not _numlike(other):
      return NotImplemented
    return op(term(other), self.t)
  return f


def _numlike(x):
  if isinstance(x, (SInt, SReal, SBool, bool, int, float, fractions.Fraction)):
    return True
  if isinstance(x, z3.ArithRef):
    return True
  import numpy as np
  return isinstance(x, np.generic)


def zadd(a, b):
  a, b = unify(num(a), num(b)); return a + b


def zsub(a, b):
  a, b = unify(num(a), num(b)); return a - b


def zmul(a, b):
  a, b = unify(num(a), num(b))
  for x, y in ((a, b), (b, a)):
    # if-then-else with numeric branches: keep products linear.
    if z3.is_app_of(x, z3.Z3_OP_ITE) and all(
        z3.is_int_value(x.arg(i)) or z3.is_rational_value(x.arg(i)) for i in (1, 2)):
      return z3.If(x.arg(0), zmul1(x.arg(1), y), zmul1(x.arg(2), y))
  return zmul1(a, b)


def zmul1(a, b):
  if not _isnum(a) and not _isnum(b) and active() and getattr(cur(), 'linear_decide', False) and 'divmods' in cur().__dict__:
    c = cur()
    for (x, y, r) in c.prods:
      if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)): return r
    r = z3.Const(c.fresh('prod'), a.sort())
    for f in [r == a * b, z3.Implies(z3.And(a >= 1, b >= 1), z3.And(r >= a, r >= b))]:
      c.pc.append(f)
      if hasattr(c, 'soft'): c.soft.append(f)
    c.prods.append((a, b, r))
    return r
  return z3.simplify(a * b) if (_isnum(a) and _isnum(b)) else (
      b if _isone(a) else a if _isone(b) else
      (_zero(b) if _iszero(a) else _zero(a) if _iszero(b) else a * b))


def _isnum(x): return z3.is_int_value(x) or z3.is_rational_value(x)
def _isone(x): return _isnum(x) and x.as_fraction() == 1 if z3.is_rational_value(x) else (z3.is_int_value(x) and x.as_long() == 1)
def _iszero(x): return _isnum(x) and x.as_fraction() == 0 if z3.is_rational_value(x) else (z3.is_int_value(x) and x.as_long() == 0)
def _zero(x): return z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)


def zdiv(a, b):
  """True division over the reals; division by zero is an error path."""
  a, b = to_real(num(a)), to_real(num(b))
  if active() and getattr(cur(), 'linear_decide', False) and not _isnum(b) and 'divmods' in cur().__dict__:
    # ghost quotient: r * b == a (b != 0 is checked by the caller).
    c = cur()
    for (x, y, r) in c.rdivs:
      if x.eq(a) and y.eq(b): return r
    r = z3.Real(c.fresh('ratio'))
    b0 = b.arg(0) if z3.is_app_of(b, z3.Z3_OP_TO_REAL) else b
    for f in [r * b == a, z3.Implies(z3.And(a > 0, b > 0), r > 0)] + [z3.Implies(b0 == k, r * k == a) for k in c.picks.get(b0.get_id(), ())]:
      c.pc.append(f)
      if hasattr(c, 'soft'): c.soft.append(f)
    c.rdivs.append((a, b, r))
    return r
  return a / b


def zfloordiv(a, b):
  a, b = num(a), num(b)
  if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
    # Python floor division. z3's div is Euclidean: equal for positive divisors.
    if z3.is_int_value(b) and b.as_long() > 0:
      return a / b
    return z3.If(b > 0, a / b, -((-a) / b) if False else _pyfloor(a, b))
  a, b = to_real(a), to_real(b)
  return z3.ToReal(z3.ToInt(a / b))


def _pyfloor(a, b):
  # floor(a/b) for b < 0: floor((-a)/(-b)), Euclidean with positive divisor.
  return (-a) / (-b)


def opaque_mod(divisor):
  """x % divisor as a function with the laws 0 <= F(x) < divisor, F(x) = x below the
  divisor (an abstraction of the real operation; enough when only ownership matters)."""
  c = cur()
  f = z3.Function(c.fresh('mod'), z3.IntSort(), z3.IntSort())
  x = z3.Int(c.fresh('mx'))
  d = term(divisor)
  c.pc.append(z3.ForAll([x], z3.And(f(x) >= 0, f(x) < d, z3.Implies(z3.And(x >= 0, x < d), f(x) == x)), patterns=[f(x)]))
  c.opaque = (d, f)
  return f


def zmod(a, b):
  a, b = num(a), num(b)
  if active() and getattr(cur(), 'opaque', None) and cur().opaque[0].eq(b): return cur().opaque[1](a)
  if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
    if z3.is_int_value(b) and b.as_long() > 0:
      return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))
  raise Unsupported('real modulo')


def _divguard(fn):
  def g(a, b):
    bt = num(b)
    if active() and decide(bt == _zero(bt)):
      raise ZeroDivisionError('division by zero')
    return fn(a, b)
  return g


def _ghost_divmod(a, b):
  """a = b*q + r with ghost q, r (0 <= r < b): keeps symbolic divisors out of div/mod."""
  c = cur()
  if z3.is_int_value(z3.simplify(b)) or not hasattr(c, 'divmods'): return None
  fc = []
  for i, v in getattr(c, 'ivars', {}).items(): fc.append(i)
  if fc:
    from vc.tensor import free_consts
    ids = set(free_consts(a)) | set(free_consts(b))
    if ids & set(fc): return None
  if feasible(c, [b <= 0]) != z3.unsat: return None
  for (x, y, q_, r2) in c.divmods:
    if x.eq(a) and y.eq(b): return q_, r2
  q_, r2 = z3.Int(c.fresh('quot')), z3.Int(c.fresh('rem'))
  facts = [a == b * q_ + r2]
  # linear consequences.
  lin = [r2 >= 0, r2 < b, z3.Implies(a >= 0, z3.And(q_ >= 0, q_ <= a)), z3.Implies(a >= b, q_ >= 1),
         z3.Implies(a == b, z3.And(q_ == 1, r2 == 0)), z3.Implies(z3.And(a >= 0, a < b), z3.And(q_ == 0, r2 == a))]
  for k in c.picks.get(b.get_id(), ()): lin.append(z3.Implies(b == k, a == k * q_ + r2))
  for f in (facts[0], z3.And(*lin)):
    c.pc.append(f)
    if hasattr(c, 'soft'): c.soft.append(f)
  c.divmods.append((a, b, q_, r2))
  return q_, r2


def divides(m, c):
  """Goal: m divides c (with the ghost quotients as witnesses)."""
  m, c = term(m), term(c)
  ds = [c % m == 0]
  for (_, b, q_, _) in cur().divmods:
    if b.eq(m):
      ds += [c == m * k for k in (q_, -q_, q_ + 1, q_ - 1, 1 - q_)]
  return z3.Or(*ds)


def _ghost(op, k):
  def f(a, b):
    na, nb = num(a), num(b)
    if active() and na.sort() == z3.IntSort() and nb.sort() == z3.IntSort() and not (
        getattr(cur(), 'opaque', None) and cur().opaque[0].eq(nb)):
      g = _ghost_divmod(na, nb)
      if g is not None: return g[k]
    return op(a, b)
  return f


def _w(op):
  return lambda a, b: wrap(op(a, b))


POW = {}


def zpow(a, b):
  a, b = num(a), num(b)
  bs = z3.simplify(b)
  if z3.is_int_value(bs) or (z3.is_rational_value(bs) and bs.denominator_as_long() == 1):
    n = bs.as_long() if z3.is_int_value(bs) else bs.numerator_as_long()
    if 0 <= n <= 4:
      r = z3.IntVal(1) if a.sort() == z3.IntSort() else z3.RealVal(1)
      for _ in range(n):
        r = r * a
      return r
  f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
  return f(to_real(a), to_real(b))


class SNum(Sym):
  __slots__ = ()
  __add__ = _b(_w(zadd)); __radd__ = _r(_w(zadd))
  __sub__ = _b(_w(zsub)); __rsub__ = _r(_w(zsub))
  __mul__ = _b(_w(zmul)); __rmul__ = _r(_w(zmul))
  __truediv__ = _b(_w(_divguard(zdiv))); __rtruediv__ = _r(_w(_divguard(zdiv)))
  __floordiv__ = _b(_w(_divguard(_ghost(zfloordiv, 0)))); __rfloordiv__ = _r(_w(_divguard(_ghost(zfloordiv, 0))))
  __mod__ = _b(_w(_divguard(_ghost(zmod, 1)))); __rmod__ = _r(_w(_divguard(_ghost(zmod, 1))))
  __pow__ = _b(_w(zpow)); __rpow__ = _r(_w(zpow))

  def __divmod__(self, o):
    return self // o, self % o

  def __neg__(self): return wrap(-num(self.t))
  def __pos__(self): return self
  def __abs__(self):
    t = num(self.t)
    return wrap(z3.If(t >= 0, t, -t))

  def _cmp(self, other, op):
    if not _numlike(other):
      return NotImplemented
    if isinstance(other, float) and math.isinf(other):
      return wrap(z3.simplify(op(z3.RealVal(0), z3.RealVal(1 if other > 0 else -1))))
    a, b = unify(num(self.t), num(term(other)))
    return wrap(z3.simplify(op(a, b)) if False else op(a, b))

  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

  def __eq__(self, o):
    import numpy as np
    if isinstance(o, float) and math.isinf(o):
      return False
    if not _numlike(o):
      return NotImplemented if not (o is None or isinstance(o, (str, tuple))) else False
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  __hash__ = Sym.__hash__

  def __bool__(self):
    return decide(self.t != _zero(self.t))

  def item(self):
    return self


class SInt(SNum):
  __slots__ = ()

  def __init__(self, t):
    super().__init__(t)

  def __index__(self):
    t = z3.simplify(self.t)
    if z3.is_int_value(t):
      return t.as_long()
    raise Unsupported(f'symbolic integer {t} used where a concrete one is needed')

  def __int__(self):
    return self.__index__()

  def __invert__(self): return wrap(-self.t - 1)
  def is_integer(self): return True
  def bit_length(self): raise Unsupported('bit_length')


class SReal(SNum):
  __slots__ = ()

  def __float__(self):
    raise Unsupported('float() of a symbolic real')

  def is_integer(self):
    return wrap(z3.IsInt(self.t))


class SBool(SNum):
  __slots__ = ()

  def __bool__(self):
    return decide(self.t)

  def __and__(self, o):
    if isinstance(o, (bool, SBool)): return wrap(z3.And(self.t, as_z3bool(o)))
    return NotImplemented
  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, (bool, SBool)): return wrap(z3.Or(self.t, as_z3bool(o)))
    return NotImplemented
  __ror__ = __or__

  def __xor__(self, o):
    if isinstance(o, (bool, SBool)): return wrap(z3.Xor(self.t, as_z3bool(o)))
    return NotImplemented

  def __invert__(self): return wrap(z3.Not(self.t))


class SStr(Sym):
  """Symbolic string."""
  __slots__ = ()

  def __add__(self, o): return SStr(z3.Concat(self.t, term_str(o)))
  def __radd__(self, o): return SStr(z3.Concat(term_str(o), self.t))

  def __eq__(self, o):
    if isinstance(o, (SStr, str)):
      return wrap(self.t == term_str(o))
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  __hash__ = Sym.__hash__

  def __bool__(self): return decide(z3.Length(self.t) > 0)
  def startswith(self, p): return wrap(z3.PrefixOf(term_str(p), self.t))
  def endswith(self, p): return wrap(z3.SuffixOf(term_str(p), self.t))
  def __contains__(self, p): return bool(wrap(z3.Contains(self.t, term_str(p))))


def term_str(x):
  if isinstance(x, SStr): return x.t
  if isinstance(x, str): return z3.StringVal(x)
  raise Unsupported(f'not a string: {x!r}')


class SObj(Sym):
  """Opaque symbolic object of an uninterpreted sort (supports equality only)."""
  __slots__ = ()

  def __eq__(self, o):
    if isinstance(o, SObj) and o.t.sort() == self.t.sort():
      return wrap(self.t == o.t)
    return False

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else wrap(z3.Not(r.t))

  __hash__ = Sym.__hash__


# ----------------------------------------------------------------------------
# Fresh symbols.
# ----------------------------------------------------------------------------
def fresh_int(name, lo=None, hi=None):
  v = z3.Int(cur().fresh(name))
  if lo is not None: assume(v >= term(lo))
  if hi is not None: assume(v < term(hi))
  return SInt(v)


def fresh_real(name):
  return SReal(z3.Real(cur().fresh(name)))


def fresh_bool(name):
  return SBool(z3.Bool(cur().fresh(name)))


def fresh_str(name):
  return SStr(z3.String(cur().fresh(name)))


_SORTS = {}


def sort(name):
  if name not in _SORTS:
    _SORTS[name] = z3.DeclareSort(name)
  return _SORTS[name]


def fresh_obj(name, srt='Obj'):
  return SObj(z3.Const(cur().fresh(name), sort(srt)))


def ite(c, a, b):
  """Symbolic conditional on scalars."""
  c = as_z3bool(c)
  if z3.is_true(c): return a
  if z3.is_false(c): return b
  if a is b: return a
  ta, tb = term_any(a), term_any(b)
  ta, tb = (ta, tb) if ta.sort() == tb.sort() else unify(ta, tb)
  return wrap(z3.If(c, ta, tb))


def term_any(x):
  if isinstance(x, str): return z3.StringVal(x)
  return term(x)


def conj(*xs):
  return wrap(z3.And(*[as_z3bool(x) for x in xs])) if xs else True


def disj(*xs):
  return wrap(z3.Or(*[as_z3bool(x) for x in xs])) if xs else False


def neg(x):
  return wrap(z3.Not(as_z3bool(x)))


def implies(a, b):
  return wrap(z3.Implies(as_z3bool(a), as_z3bool(b)))


def same(a, b):
  """Symbolic equality as a z3 Bool (no branching)."""
  ta, tb = term_any(a), term_any(b)
  if ta.sort() != tb.sort():
    ta, tb = unify(ta, tb)
  return ta == tb
