"""C16: optimizer rules (vmoe/train/optimizer.py)."""
import re
import types as _types
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from vc.seqs import SSeq, SDict, KSpace, KDict

MOD = 'vmoe.train.optimizer'
Str = core.sort('Text')
Upd = core.sort('Update')


class Pattern:
  def __init__(self, i): self.i = i


class Regex:
  def __init__(self, i): self.i = i
  def search(self, key): return wrap(core.cur().match(term(self.i), key.t))


def first(name):
  """Invariant of the rule search: no rule before i matches."""
  def inv(i, n, st):
    c = core.cur()
    j = z3.Int(c.fresh('j'))
    return [('no earlier rule matches', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(i)), z3.Not(c.match(j, st['key'].t)))))]
  return inv


loops.loop(MOD, 'add_decayed_weights.weight_decay_fn#0', inv=first('decay'))
loops.loop(MOD, 'gradient_scaling.scale_fn#0', inv=first('scale'))


class Mock:
  """Assumed contracts of flax's tree functions and of re; optax transformations as tagged pairs."""

  def __init__(self, m, trees):
    self.m, self.trees = m, trees

  def __enter__(self):
    m = self.m
    self.olds = m.flax, m.re, m.optax, m.utils
    core.assumption('assumed: to_state_dict/flatten_dict list every leaf once under its path (in any order), unflatten_dict/from_state_dict put values back under their paths; re.search is a predicate of (pattern, path)')
    def flatten(d, keep_empty_nodes=False, sep=None):
      obligation('leaves are named by their path', z3.BoolVal(sep == '/' and d[0] == 'state'))
      return self.trees[d[1]]
    def unflatten(d, sep=None):
      obligation('paths are split again', z3.BoolVal(sep == '/'))
      return ('flat', d)
    def from_state(t, d): return ('tree', t, d[1])
    def compile_(p, flags=0):
      obligation('patterns are compiled as given, without flags', z3.BoolVal(int(flags) == 0))
      return Regex(p.i)
    m.flax = Over(m.flax,
        traverse_util=Over(m.flax.traverse_util, flatten_dict=flatten, unflatten_dict=unflatten),
        serialization=Over(m.flax.serialization, to_state_dict=lambda t: ('state', t), from_state_dict=from_state))
    m.re = Over(m.re, compile=compile_, search=lambda p, k, flags=0: compile_(p, flags).search(k))
    m.optax = Over(m.optax, 
        GradientTransformation=lambda i, u: ('gt', i, u), identity=lambda: ('identity',), EmptyState=lambda: ('state0',),
        AddDecayedWeightsState=lambda: ('state0',), masked=lambda op, mask: ('masked', op, mask), set_to_zero=lambda: ('zero',))
    def safe_map(f, *its):   # contract of utils.safe_map (C13)
      ns = [term(loader.b_len(i)) for i in its]
      for n in ns[1:]: obligation('equally long', n == ns[0])
      return loader.b_map(f, *its)
    m.utils = Over(m.utils, safe_map=safe_map, safe_zip=lambda *its: safe_map(lambda *a: a, *its))
    return self

  def __exit__(self, *a):
    m = self.m
    m.flax, m.re, m.optax, m.utils = self.olds


def rules():
  c = core.cur()
  c.match = z3.Function(c.fresh('Match'), z3.IntSort(), Str, z3.BoolSort())
  val = z3.Function(c.fresh('Factor'), z3.IntSort(), z3.RealSort())
  nr = fresh_int('rules', 1)
  return nr, val, SSeq(nr, lambda i: (Pattern(i), wrap(val(term(i)))), 'tuple' if core.choose(2) else 'list')


def factor_is(nr, val, key, f, default, exact):
  """f is the factor of the first matching rule, or the default: as a relation on (key, f)."""
  c = core.cur()
  i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
  none_before = lambda x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x), z3.Not(c.match(j, key))))
  return z3.Or(z3.And(none_before(nr.t), exact(default)),
               z3.Exists([i], z3.And(i >= 0, i < nr.t, c.match(i, key), none_before(i), exact(val(i)))))


def space():
  c = core.cur()
  sp = KSpace(Str, fresh_int('leaves', 0))
  G = z3.Function(c.fresh('Grad'), Str, z3.RealSort())
  P = z3.Function(c.fresh('Param'), Str, z3.RealSort())
  return sp, G, P


def result(r, want_tree, sp):
  obligation('structure of the given updates', z3.BoolVal(isinstance(r, tuple) and r[0] == 'tree' and r[1] == want_tree))
  d = r[2]
  if isinstance(d, KDict): d = SDict(d.items())
  obligation('a value for every leaf', term(loader.b_len(d)) == term(sp.n))
  i = fresh_int('leaf', 0, sp.n)
  k, v = d.pairs.get(i)
  obligation('under its own path', sp.member(term(k)))
  return k, v


@contract('C16', functions=[f'{MOD}.add_decayed_weights'], max_paths=200)
def weight_decay():
  """Any number of leaves and rules; updates and params may enumerate their leaves in different orders."""
  m = loader.load(MOD)
  sp, G, P = space()
  trees = dict(updates=KDict(sp, lambda k: wrap(G(term(k))), 'order_u'), params=KDict(sp, lambda k: wrap(P(term(k))), 'order_p'))
  with Mock(m, trees):
    uniform = core.choose(2) == 0
    if uniform:
      wd = fresh_real('decay'); assume(wd.t != 0)
    else:
      nr, val, wd = rules()
    op = m.add_decayed_weights(wd)
    obligation('a transformation', z3.BoolVal(op[0] == 'gt'))
    if core.choose(2) == 0:
      try:
        op[2]('updates', ('s',), None)
        obligation('missing params are rejected', z3.BoolVal(False))
      except ValueError: obligation('missing params are rejected', z3.BoolVal(True))
      return
    r, st = op[2]('updates', ('s',), 'params')
    obligation('state passed through', z3.BoolVal(st == ('s',)))
    k, v = result(r, 'updates', sp)
  key = term(k)
  if uniform: obligation('update plus factor times the same parameter', term(v) == G(key) + wd.t * P(key))
  else: obligation('update plus factor of the first matching rule times the same parameter',
                   factor_is(nr, val, key, v, z3.RealVal(0), lambda f: term(v) == G(key) + f * P(key)))


@contract('C16', functions=[f'{MOD}.gradient_scaling'], max_paths=200)
def scaling():
  m = loader.load(MOD)
  sp, G, P = space()
  with Mock(m, dict(updates=KDict(sp, lambda k: wrap(G(term(k))), 'order_u'))):
    nr, val, scales = rules()
    op = m.gradient_scaling(scales)
    obligation('a transformation', z3.BoolVal(op[0] == 'gt'))
    r, st = op[2]('updates', ('s',), None)
    obligation('state passed through', z3.BoolVal(st == ('s',)))
    k, v = result(r, 'updates', sp)
  key = term(k)
  obligation('gradient times factor of the first matching rule',
             factor_is(nr, val, key, v, z3.RealVal(1), lambda f: term(v) == f * G(key)))


@contract('C16', functions=[f'{MOD}.add_decayed_weights', f'{MOD}.gradient_scaling', f'{MOD}.freeze_weights', f'{MOD}.gradient_clipping'])
def nothing_requested():
  m = loader.load(MOD)
  with Mock(m, {}):
    for none in (None, (), []):
      obligation('no decay requested: identity', z3.BoolVal(m.add_decayed_weights(none) == ('identity',)))
      obligation('no scaling requested: identity', z3.BoolVal(m.gradient_scaling(none) == ('identity',)))
    obligation('zero decay: identity', z3.BoolVal(m.add_decayed_weights(0.) == ('identity',)))
    for none in (None, '', ()):
      obligation('nothing frozen: identity', z3.BoolVal(m.freeze_weights(frozen_pattern=none, trainable_pattern=none) == ('identity',)))
    obligation('no clipping requested: identity', z3.BoolVal(m.gradient_clipping() == ('identity',)))


def _freeze(m, pats, joined):
  c = core.cur()
  c.match = z3.Function(c.fresh('Match'), z3.IntSort(), Str, z3.BoolSort())
  sp, G, P = space()
  frozen = core.choose(2) == 0
  names = [f'pat{i}tern' for i in range(pats)]
  arg = names if joined else names[0]
  if joined and core.choose(2): arg = tuple(arg)
  class Any_:
    def __init__(self, ids): self.ids = ids
    def search(self, key): return re.search('', '') if decide(z3.Or(*[c.match(i, key.t) for i in self.ids])) else None
  def compile_(p, flags=0):
    obligation('patterns are compiled as given, without flags', z3.BoolVal(int(flags) == 0))
    # Alternation of groups is the union of the patterns (assumed contract of re).
    parts = p.split('|')
    parts = [q[3:-1] if q.startswith('(?:') and q.endswith(')') else q for q in parts]
    if any(q not in names for q in parts): raise core.Unsupported(f'pattern {p!r}')
    return Any_([names.index(q) for q in parts])
  with Mock(m, dict(params=KDict(sp, lambda k: wrap(P(term(k))), 'order_p'))):
    m.re = Over(m.re, compile=compile_)
    try:
      m.freeze_weights(frozen_pattern=arg, trainable_pattern=arg)
      obligation('both patterns are rejected', z3.BoolVal(False))
    except ValueError: obligation('both patterns are rejected', z3.BoolVal(True))
    op = m.freeze_weights(**{'frozen_pattern': arg if frozen else None, 'trainable_pattern': None if frozen else arg})
    obligation('zeroes a masked part of the updates', z3.BoolVal(op[0] == 'masked' and op[1] == ('zero',) and callable(op[2])))
    core.assumption('assumed: optax.masked(set_to_zero(), f) sets exactly the updates to zero whose mask f(params) is True and passes on the others')
    k, v = result(op[2]('params'), 'params', sp)
  obligation('mask is a boolean', z3.BoolVal(isinstance(v, bool)))
  hit = z3.Or(*[c.match(i, term(k)) for i in range(pats)])
  obligation('frozen exactly when selected as frozen or not selected as trainable', z3.BoolVal(v is True) == (hit if frozen else z3.Not(hit)))


@contract('C16', functions=[f'{MOD}.freeze_weights'], max_paths=200)
def freezing():
  """Any number of leaves, one pattern."""
  _freeze(loader.load(MOD), 1, False)


@contract('C16', functions=[f'{MOD}.freeze_weights'], bounded='one to three patterns', max_paths=200)
def freezing_several_patterns():
  _freeze(loader.load(MOD), 1 + core.choose(3), True)


@contract('C16', functions=[f'{MOD}.gradient_clipping'])
def clipping():
  m = loader.load(MOD)
  x, y = fresh_real('norm'), fresh_real('absval')
  assume(x.t != 0); assume(y.t != 0)
  with Mock(m, {}):
    m.optax = Over(m.optax, clip_by_global_norm=lambda v: ('norm', v), clip=lambda v: ('abs', v))
    obligation('global norm', z3.BoolVal(m.gradient_clipping(global_norm=x) == ('norm', x)))
    obligation('absolute value', z3.BoolVal(m.gradient_clipping(absolute_value=y) == ('abs', y)))
    try:
      m.gradient_clipping(global_norm=x, absolute_value=y)
      obligation('both clippings are rejected', z3.BoolVal(False))
    except ValueError: obligation('both clippings are rejected', z3.BoolVal(True))


@contract('C16', functions=[f'{MOD}.create_optimizer', f'{MOD}.trace_momentum'], max_paths=400)
def order_of_steps():
  """The composed transformation of any update u is freeze(-lr * decay(optimizer(clip(scale(u)))))."""
  m = loader.load(MOD)
  c = core.cur()
  uf = lambda n: z3.Function(c.fresh(n), Upd, Upd)
  By = z3.Function(c.fresh('Times'), z3.RealSort(), Upd, Upd)
  fs = {n: uf(n) for n in ('Scale', 'Clip', 'Optimizer', 'Decay', 'Freeze')}
  lr = fresh_real('lr')
  S = object()
  log = {}
  kind = core.choose(4)
  name = ['adam', 'big_vision_adafactor', 'sgd', 'sgd'][kind]
  mom = fresh_real('momentum'); assume(mom.t != 0)
  kw = [dict(b1=object(), eps=object()), dict(momentum=object(), eps=object()), dict(momentum=mom, nesterov=object()), {}][kind]
  def optimizer(tag):
    def f(**k):
      log[tag] = k
      return fs['Optimizer']
    return f
  def chain(*ops):
    core.assumption('assumed: optax.chain applies its transformations in order; optax.identity does nothing; optax.scale multiplies; inject_hyperparams evaluates the schedule')
    def run(u):
      for o in ops: u = o(u)
      return u
    return run
  def inject(f):
    def w(s):
      obligation('scaled by the learning-rate schedule', z3.BoolVal(s is S))
      return f(lr)
    return w
  G, C_, W, F, T = (object() for _ in range(5))
  LR = core.choose(3)
  lr_arg = [0.125, dict(schedule='x', a=1), 3][LR]
  def sched(**k):
    want = dict(schedule='constant', value=lr_arg, total_steps=T) if LR != 1 else dict(schedule='x', a=1, total_steps=T)
    obligation('schedule as configured', z3.BoolVal(k == want))
    return S
  given = core.choose(3)   # all given, none given, unknown optimizer
  names = ('gradient_scaling', 'gradient_clipping', 'scale_by_big_vision_adafactor', 'add_decayed_weights', 'freeze_weights', 'optax', 'schedule')
  olds = {n: getattr(m, n) for n in names}
  def called(tag, want):
    def f(*a, **k):
      obligation(f'{tag} gets its own options', z3.BoolVal((list(a), k) == want))
      return fs[tag]
    return f
  none = given == 1
  m.gradient_scaling = called('Scale', ([None if none else G], {}))
  m.gradient_clipping = called('Clip', ([], {} if none else dict(global_norm=C_)))
  m.add_decayed_weights = called('Decay', ([None if none else W], {}))
  m.freeze_weights = called('Freeze', ([], dict(frozen_pattern=None if none else F, trainable_pattern=None)))
  m.scale_by_big_vision_adafactor = optimizer('big_vision_adafactor')
  m.optax = Over(m.optax, scale_by_adam=optimizer('adam'), trace=optimizer('sgd'), chain=chain, identity=lambda: (lambda u: u),
                                   scale=lambda x: (lambda u: By(core.num(term(x)), u)), inject_hyperparams=inject)
  m.schedule = Over(m.schedule, create_learning_rate_schedule=sched)
  opts = {} if none else dict(gradient_clip=dict(global_norm=C_), weight_decay=W, frozen_pattern=F, gradient_scale=G)
  try:
    if given == 2:
      try:
        m.create_optimizer(name='sgdx', total_steps=T, learning_rate=lr_arg, **opts)
        obligation('unknown optimizer is rejected', z3.BoolVal(False))
      except ValueError: obligation('unknown optimizer is rejected', z3.BoolVal(True))
      return
    op = m.create_optimizer(name=name, total_steps=T, learning_rate=lr_arg, **opts, **kw)
    u = z3.Const(c.fresh('u'), Upd)
    r = op(u)
  finally:
    for n, v in olds.items(): setattr(m, n, v)
  opt = (lambda x: x) if kind == 3 else fs['Optimizer']
  obligation('scale, clip, optimizer, decay, learning rate, freeze',
             r == fs['Freeze'](By(-lr.t, fs['Decay'](opt(fs['Clip'](fs['Scale'](u)))))))
  want = {} if kind == 3 else {name: kw if kind < 2 else dict(decay=mom, nesterov=kw['nesterov'])}
  obligation('optimizer options passed on', z3.BoolVal(log == want))
