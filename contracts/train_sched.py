"""C17: learning-rate schedules (vmoe/train/schedule.py). Steps are integers, values reals."""
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over

MOD = 'vmoe.train.schedule'
loops.enable(MOD)
R = lambda x: z3.ToReal(x) if z3.is_int(x) else x
Pow = z3.Function('Pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
Sqrt = z3.Function('Sqrt', z3.RealSort(), z3.RealSort())


def pow_laws(p, *xs):
  """Laws of x**p for p > 0 on [0, 1], instantiated at the given points."""
  core.assumption('assumed: x**p (p > 0, 0 <= x <= 1) maps 0 to 0, 1 to 1 and is monotone')
  for x in xs:
    assume(z3.Implies(z3.And(x >= 0, x <= 1), z3.And(Pow(x, p) >= 0, Pow(x, p) <= 1)))
    assume(z3.Implies(x == 0, Pow(x, p) == 0))
    assume(z3.Implies(x == 1, Pow(x, p) == 1))
    assume(z3.Implies(p == 1, Pow(x, p) == x))
    for y in xs: assume(z3.Implies(z3.And(0 <= x, x <= y, y <= 1), Pow(x, p) <= Pow(y, p)))


def sqrt_laws(*xs):
  core.assumption('assumed: sqrt is the non-negative root (monotone), rsqrt(x) = 1 / sqrt(x)')
  for x in xs:
    assume(z3.Implies(x >= 0, z3.And(Sqrt(x) >= 0, Sqrt(x) * Sqrt(x) == x)))
    assume(z3.Implies(x >= 1, Sqrt(x) >= 1))
    assume(z3.Implies(x == 1, Sqrt(x) == 1))
    for y in xs: assume(z3.Implies(z3.And(0 <= x, x <= y), Sqrt(x) <= Sqrt(y)))


class Poly:
  """Assumed contract of optax.polynomial_schedule; power None: linear."""

  def __init__(self, init, end, steps, power=None, begin=0):
    self.a = (R(core.num(term(init))), R(core.num(term(end))))
    self.p, self.n, self.b = power, term(steps), begin

  def __call__(self, count):
    init, end = self.a
    if decide(self.n <= 0): return wrap(init)
    x = R(term(count))
    n = R(self.n)
    x = z3.If(x < 0, z3.RealVal(0), z3.If(x > n, n, x))
    frac = 1 - x / n
    core.cur().fracs.append(frac)
    y = frac if self.p is None else Pow(frac, core.num(term(self.p)))
    return wrap((init - end) * y + end)


def join(schedules, boundaries):
  def f(step):
    v = schedules[0](step)
    for b, s in zip(boundaries, schedules[1:]):
      if not decide(term(step) < term(b)): v = s(step - b)
    return v
  return f


class Lib:
  def __init__(self, m): self.m = m
  def __enter__(self):
    core.assumption('assumed: optax.linear_schedule, polynomial_schedule and join_schedules compute their documented formulas')
    core.cur().fracs = []
    m = self.m
    self.olds = m.optax, m.jax, m.math
    def poly(init_value, end_value, power, transition_steps, transition_begin=0):
      if not (isinstance(transition_begin, int) and transition_begin == 0): raise core.Unsupported('transition_begin')
      one = not isinstance(power, core.Sym) and power == 1
      return Poly(init_value, end_value, transition_steps, None if one else power)
    def lin(init_value, end_value, transition_steps, transition_begin=0):
      return poly(init_value, end_value, 1, transition_steps, transition_begin)
    def sqrt(x):
      t = R(core.num(term(x)))
      core.cur().roots.append(t)
      assume(z3.Implies(t > 0, Sqrt(t) > 0))
      return wrap(Sqrt(t))
    core.cur().roots = []
    m.optax = Over(m.optax, linear_schedule=lin, polynomial_schedule=poly, join_schedules=join)
    rsqrt = lambda x: 1 / sqrt(x)
    old_jnp = m.jax.numpy
    num = Over(old_jnp, sqrt=sqrt)
    m.jax = Over(m.jax, lax=Over(m.jax.lax, rsqrt=rsqrt, sqrt=sqrt), numpy=num)
    m.math = Over(m.math, sqrt=sqrt)
    self.more = {}
    for n in ('jnp', 'np', 'numpy'):
      if hasattr(m, n):
        self.more[n] = getattr(m, n)
        setattr(m, n, Over(getattr(m, n), sqrt=sqrt))
    return self
  def __exit__(self, *a):
    m = self.m
    m.optax, m.jax, m.math = self.olds
    for n, v in self.more.items(): setattr(m, n, v)


def config():
  W, D = fresh_int('warmup', 0), fresh_int('decay_steps', 1)
  peak = fresh_real('peak')
  assume(peak.t > 0)
  return W, D, peak


@contract('C17', functions=[f'{MOD}.warmup_polynomial_decay_schedule'], max_paths=400)
def polynomial_decay():
  """Any warmup < decay steps, 0 <= end <= peak, power > 0, any step 0 <= t <= decay_steps."""
  m = loader.load(MOD)
  W, D, peak = config()
  end = fresh_real('end')
  assume(z3.And(W.t < D.t, end.t >= 0, end.t <= peak.t))
  p = 1.0 if core.choose(2) == 0 else fresh_real('power')
  if p != 1.0: assume(p.t > 0)
  t = fresh_int('t', 0)
  assume(t.t <= D.t)
  with Lib(m):
    f = m.warmup_polynomial_decay_schedule(peak_value=peak, end_value=end, power=p, warmup_steps=W, decay_steps=D)
    v, w = R(term(f(t))), R(term(f(t + 1)))
    pt = z3.RealVal(1) if p == 1.0 else p.t
    pow_laws(pt, *core.cur().fracs)
  tr, Wr, Dr = R(t.t), R(W.t), R(D.t)
  q = 1 - (tr - Wr) / (Dr - Wr)
  down = (peak.t - end.t) * (q if p == 1.0 else Pow(q, pt)) + end.t
  if p != 1.0: pow_laws(pt, q, *core.cur().fracs)
  if decide(t.t < W.t):
    obligation('linear warmup from zero', v == peak.t * tr / Wr)
    obligation('never above the peak, never negative', z3.And(v >= 0, v <= peak.t))
    obligation('peak reached exactly at the end of warmup, without a jump', z3.Implies(t.t + 1 == W.t, w == peak.t))
    obligation('rising', w >= v)
  else:
    obligation('decay formula', v == down)
    obligation('peak at the end of warmup', z3.Implies(t.t == W.t, v == peak.t))
    obligation('end value at the last step', z3.Implies(t.t == D.t, v == end.t))
    obligation('between end and peak', z3.And(v >= end.t, v <= peak.t))
    if decide(t.t < D.t): obligation('not increasing after warmup', w <= v)


@contract('C17', functions=[f'{MOD}.big_vision_rsqrt_schedule'], max_paths=600, budget=200)
def rsqrt_decay():
  """Any warmup + cooldown <= decay steps, any timescale > 0, any step 0 <= t <= decay_steps."""
  m = loader.load(MOD)
  W, D, peak = config()
  C = fresh_int('cooldown', 0)
  ts = fresh_int('timescale', 1) if core.choose(2) else fresh_real('timescale')
  assume(ts.t > 0)
  assume(W.t + C.t <= D.t)
  t = fresh_int('t', 0)
  assume(t.t <= D.t)
  c = core.cur()
  with Lib(m):
    f = m.big_vision_rsqrt_schedule(peak_value=peak, decay_steps=D, timescale=ts, warmup_steps=W, cooldown_steps=C)
    v = R(term(f(t)))
    inside = decide(t.t < D.t)
    w = R(term(f(t + 1))) if inside else None
    tr, Wr, Dr, Cr, tsr = map(R, (t.t, W.t, D.t, C.t, term(ts)))
    x = 1 + (tr - Wr) / tsr
    x0 = 1 + (Dr - Wr - Cr) / tsr
    sqrt_laws(x, x0, *c.roots)
  if decide(t.t < W.t):
    obligation('linear warmup from zero', v == peak.t * tr / Wr)
    obligation('never above the peak, never negative', z3.And(v >= 0, v <= peak.t))
    obligation('peak reached exactly at the end of warmup, without a jump',
               z3.Implies(z3.And(t.t + 1 == W.t, z3.Or(C.t == 0, W.t + C.t < D.t)), w == peak.t))
    obligation('rising', w >= v)
  elif decide(z3.Or(t.t < D.t - C.t, C.t == 0)):
    obligation('inverse square root formula', v * Sqrt(x) == peak.t)
    obligation('peak at the end of warmup', z3.Implies(t.t == W.t, v == peak.t))
    obligation('positive, at most the peak', z3.And(v > 0, v <= peak.t))
    if inside: obligation('not increasing after warmup', w <= v)
  else:
    obligation('linear cooldown from the value reached', v * Sqrt(x0) * Cr == peak.t * (Dr - tr))
    obligation('no jump where the cooldown starts', z3.Implies(t.t == D.t - C.t, v * Sqrt(x0) == peak.t))
    obligation('zero at the last step', z3.Implies(t.t == D.t, v == 0))
    obligation('at most the peak, not negative', z3.And(v >= 0, v <= peak.t))
    if inside: obligation('not increasing after warmup', w <= v)


@contract('C17', functions=[f'{MOD}.big_vision_rsqrt_schedule'])
def rsqrt_invalid():
  """Phases that do not fit, or a negative timescale, are rejected."""
  m = loader.load(MOD)
  W, D, peak = config()
  C, ts = fresh_int('cooldown', 0), fresh_int('timescale')
  assume(z3.Or(W.t + C.t > D.t, ts.t < 0))
  with Lib(m):
    try:
      m.big_vision_rsqrt_schedule(peak_value=peak, decay_steps=D, timescale=ts, warmup_steps=W, cooldown_steps=C)
      obligation('rejected', z3.BoolVal(False))
    except ValueError: obligation('rejected', z3.BoolVal(True))


@contract('C17', functions=[f'{MOD}.create_learning_rate_schedule'])
def selection():
  """Each name selects its schedule with the given options; decay_steps defaults to the total number of steps."""
  m = loader.load(MOD)
  T, D = fresh_int('total', 1), fresh_int('decay', 1)
  a, b = object(), object()
  k = core.choose(7)
  name = ['constant', 'warmup_exponential_decay', 'warmup_cosine_decay', 'warmup_linear_decay', 'warmup_polynomial_decay', 'big_vision_rsqrt', 'other'][k]
  given = core.choose(2) == 1
  olds = m.optax, m.warmup_polynomial_decay_schedule, m.big_vision_rsqrt_schedule
  def rec(n):
    def f(*args, **kw):
      if args: raise core.Unsupported('positional arguments')
      return (n, kw)
    return f
  m.optax = Over(m.optax, constant_schedule=rec(0), warmup_exponential_decay_schedule=rec(1), warmup_cosine_decay_schedule=rec(2))
  m.warmup_polynomial_decay_schedule, m.big_vision_rsqrt_schedule = rec(3), rec(5)
  kw = dict(a=a, b=b)
  if given: kw['decay_steps'] = D
  try:
    if k == 6:
      try:
        m.create_learning_rate_schedule(schedule=name, total_steps=T, **kw)
        obligation('unknown schedule is rejected', z3.BoolVal(False))
      except ValueError: obligation('unknown schedule is rejected', z3.BoolVal(True))
      return
    which, got = m.create_learning_rate_schedule(schedule=name, total_steps=T, **kw)
  finally:
    m.optax, m.warmup_polynomial_decay_schedule, m.big_vision_rsqrt_schedule = olds
  obligation('schedule of that name', z3.BoolVal(which == {4: 3}.get(k, k)))
  want = dict(kw)
  if k >= 2 and not given: want['decay_steps'] = T
  if k in (1, 2): want['init_value'] = 0.0
  if k == 3: want['power'] = 1.0
  obligation('exactly the given options', z3.BoolVal(set(got) == set(want)))
  for n in want:
    if n in got: obligation(f'option {n}', core.same(got[n], want[n]) if isinstance(want[n], core.Sym) else z3.BoolVal(got[n] is want[n] or got[n] == want[n]))
