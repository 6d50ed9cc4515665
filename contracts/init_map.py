"""C24: mapping a checkpoint into a model (vmoe/initialization/mapping.py, rules.py)."""
import re
import types as _types
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from vc.seqs import SSeq, KSpace, KDict
from contracts.train_step import use

MOD = 'vmoe.initialization.mapping'
RULES = 'vmoe.initialization.rules'
ns = _types.SimpleNamespace
Name = core.sort('ArrayName')
Arr = core.sort('ArrayValue')
Dty = core.sort('ElementType')
Shp = core.sort('ShapeValue')
B, I = z3.BoolSort(), z3.IntSort()


class Node:
  """An array, or the recipe (Transformation) for one."""
  __vc_symbolic__ = True
  def __init__(self, t): self.t = t
  def append(self, v):
    c = core.cur()
    obligation('only stacked targets get further values', c.is_stack(self.t))
    return Node(c.Append(self.t, v.t))
  @property
  def shape(self): return wrap(core.cur().Shape(self.t))
  @property
  def dtype(self): return wrap(core.cur().Dtype(self.t))
  def astype(self, d): return Node(core.cur().Cast(self.t, term(d)))
  def __call__(self): return Node(core.cur().Run(self.t))
  @property
  def target_shape_dtype(self):
    c = core.cur()
    return ns(dtype=wrap(c.WantD(self.t)), shape=wrap(c.WantS(self.t)), sharding=('sharding', self.t))


def join(c_, a, b): return Node(z3.If(c_, a.t, b.t))


class Out:
  """A dict that starts empty and gets keys of the sort Name."""
  __vc_symbolic__ = True
  def __init__(self, has, val): self.has, self.val = has, val
  def __contains__(self, k): return decide(self.has(term(k)))
  def __getitem__(self, k):
    if not decide(self.has(term(k))): raise KeyError('key not in dict')
    return Node(self.val(term(k)))
  def __setitem__(self, k, v):
    kt, h, f = term(k), self.has, self.val
    self.has = lambda q: z3.Or(q == kt, h(q))
    self.val = lambda q: z3.If(q == kt, v.t, f(q))
  def get(self, k, d=None): return self[k] if k in self else d


def src(c, i): return c.S(term(i))


def err(c, j):
  """The source number j must be rejected."""
  k = c.S(j)
  dst = c.dst(k)
  dup = z3.And(c.U(j, dst), z3.Not(c.kind(k) == 3))
  return z3.Or(z3.And(c.kind(k) == 0, z3.BoolVal(c.strict_source)),
               z3.And(c.kind(k) != 1, z3.Or(z3.Not(c.tgt.member(dst)), dup, c.ES(k) != c.ET(dst))))


def unfold(c, i):
  """Defining equations of U (target assigned by the first i sources), H and O (its recipe)."""
  i = term(i)
  k, q = c.S(i), z3.Const(c.fresh('q'), Name)
  hit = z3.And(c.kind(k) != 1, c.dst(k) == q)
  put = z3.And(hit, z3.Not(c.ES(k)))
  new = z3.If(z3.And(c.kind(k) == 3, c.H(i, q)), c.Append(c.O(i, q), c.V(k)), c.New(k, c.W(q)))
  assume(z3.ForAll([q], c.U(i + 1, q) == z3.Or(c.U(i, q), hit), patterns=[c.U(i + 1, q)]))
  assume(z3.ForAll([q], c.H(i + 1, q) == z3.Or(c.H(i, q), put), patterns=[c.H(i + 1, q)]))
  assume(z3.ForAll([q], c.O(i + 1, q) == z3.If(put, new, c.O(i, q)), patterns=[c.O(i + 1, q)]))


def build_inv(i, n, st):
  c = core.cur()
  used, out = st['target_flat_used'], st['output']
  q, j = z3.Const(c.fresh('q'), Name), z3.Int(c.fresh('j'))
  i_ = term(i)
  f = [('targets are marked when assigned', z3.ForAll([q], z3.Implies(c.tgt.member(q), core.as_z3bool(used.val(wrap(q))) == c.U(i_, q)))),
       ('every source so far is acceptable', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i_), z3.Not(err(c, j))), patterns=[c.S(j)])),
       ('every used source so far has its target marked', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i_, c.kind(c.S(j)) != 1), c.U(i_, c.dst(c.S(j)))), patterns=[c.S(j)]))]
  if isinstance(out, Out):
    f += [('targets with a recipe', z3.ForAll([q], out.has(q) == c.H(i_, q))), ('recipe of each target', z3.ForAll([q], z3.Implies(c.H(i_, q), out.val(q) == c.O(i_, q))))]
  else: f += [('nothing assigned yet', z3.BoolVal(out == {} and isinstance(i, int)))]
  return f


def build_havoc(i, n, st):
  c = core.cur()
  F, H, O = z3.Function(c.fresh('Used'), Name, B), z3.Function(c.fresh('Has'), Name, B), z3.Function(c.fresh('Recipe'), Name, Arr)
  c.at = i
  unfold(c, i)
  return dict(target_flat_used=KDict(st['target_flat_used'].space, lambda q: wrap(F(term(q)))), output=Out(H, O))


def unused_inv(i, n, st):
  c = core.cur()
  d = c.items2
  j = z3.Int(c.fresh('j'))
  return [('targets so far are assigned, empty or may be kept', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(i)), z3.Not(missing(c, d.order(j)))), patterns=[d.order(j)]))]


def missing(c, q):
  return z3.And(z3.BoolVal(c.strict_target), z3.Not(c.U(c.n.t, q)), z3.Not(c.ET(q)))


def unused_entry(i, n, st):
  if isinstance(i, int) and i == 0: core.cur().items2 = st['target_flat_used']; core.cur().phase2 = True
  return unused_inv(i, n, st)


loops.loop(MOD, '_flat_state_dict_mapping_build#0', vars=('target_flat_used', 'output'), inv=build_inv, havoc=build_havoc)
loops.loop(MOD, '_flat_state_dict_mapping_build#1', inv=unused_entry, havoc=lambda i, n, st: (setattr(core.cur(), 'at2', i), {})[1])


def setup(c, R):
  """Any source and target names, any rules (as their contracts)."""
  c.n = fresh_int('sources', 0)
  c.S = z3.Function(c.fresh('Source'), I, Name)
  c.kind = z3.Function(c.fresh('RuleKind'), Name, I)     # 0: none, 1: drop, 2: rename, 3: stack
  Ren = z3.Function(c.fresh('Rename'), Name, Name)
  c.dst = lambda k: z3.If(c.kind(k) == 0, k, Ren(k))
  c.V, c.W = z3.Function(c.fresh('SourceValue'), Name, Arr), z3.Function(c.fresh('TargetValue'), Name, Arr)
  c.ES, c.ET = z3.Function(c.fresh('SourceEmpty'), Name, B), z3.Function(c.fresh('TargetEmpty'), Name, B)
  c.New = z3.Function(c.fresh('NewRecipe'), Name, Arr, Arr)
  c.Append = z3.Function(c.fresh('Append'), Arr, Arr, Arr)
  c.is_stack = z3.Function(c.fresh('IsStack'), Arr, B)
  c.Shape, c.Dtype = z3.Function(c.fresh('Shape'), Arr, Shp), z3.Function(c.fresh('Dtype'), Arr, Dty)
  c.U = z3.Function(c.fresh('AssignedBy'), I, Name, B)
  c.H = z3.Function(c.fresh('HasRecipe'), I, Name, B)
  c.O = z3.Function(c.fresh('RecipeAfter'), I, Name, Arr)
  q = z3.Const(c.fresh('q'), Name)
  assume(z3.ForAll([q], z3.And(z3.Not(c.U(0, q)), z3.Not(c.H(0, q)))))
  j = z3.Int(c.fresh('j'))
  assume(z3.ForAll([j], z3.And(c.kind(c.S(j)) >= 0, c.kind(c.S(j)) <= 3), patterns=[c.S(j)]))
  a, b = z3.Const(c.fresh('a'), Arr), z3.Const(c.fresh('b'), Arr)


@contract('C24', functions=[f'{MOD}._flat_state_dict_mapping_build'], max_paths=600)
def recipes():
  """Any number of source and target arrays, any rules."""
  m, R = loader.load(MOD), loader.load(RULES)
  c = core.cur()
  c.linear_decide = True
  setup(c, R)
  c.is_stack = lambda t: z3.BoolVal(True)   # values of targets given by other rules are never extended: see the duplicate check below
  c.tgt = KSpace(Name, fresh_int('targets', 0))
  # each of the renaming rules, with each of the settings (they are independent in the code: no pair is left out for the plain rule).
  kind, c.strict_source, c.strict_target = [('RegexRule', 0, 0), ('RegexRule', 0, 1), ('RegexRule', 1, 0), ('RegexRule', 1, 1), ('ReshapeRule', 0, 1), ('SqueezeRule', 1, 0),
                                            ('ExpandTileRule', 0, 0), ('VitZoomRule', 1, 1), ('ZoomRule', 0, 1)][core.choose(9)]
  c.strict_source, c.strict_target = bool(c.strict_source), bool(c.strict_target)
  class Empty(m.EmptyNode): pass
  sv = lambda k: Empty() if decide(c.ES(term(k))) else Node(c.V(term(k)))
  tv = lambda k: Empty() if decide(c.ET(term(k))) else Node(c.W(term(k)))
  class Source:
    __vc_symbolic__ = True
    def keys(self): return self
    def __getitem__(self, k): return sv(k)
  source = Source()
  target = KDict(c.tgt, tv)
  def methods():
    def rename(self, key): return wrap(c.dst(term(key)))
    def get_transformation(self, s, t):
      k = self.key
      obligation('from the source value', s.t == c.V(term(k)))
      obligation('for the target value', t.t == c.W(c.dst(term(k))))
      return Node(c.New(term(k), t.t))
    return dict(rename=rename, get_transformation=get_transformation)
  kinds = {1: type('Drop', (R.DropRule,), {}), 2: type('Rename', (getattr(R, kind, R.RegexRule),), methods()), 3: type('Stack', (R.StackRule,), methods())}
  def make(kind, key):
    r = object.__new__(kinds[kind]); r.key = key
    return r
  class Ident(kinds[2]):
    @property
    def key(self): return c.last
  class Found(R.Rules):
    def find(self, key):
      c.last = key
      for v in (0, 1, 3):
        if decide(c.kind(term(key)) == v): return make(v, key) if v else None
      return make(2, key)
  def order(names):
    obligation('all source names', z3.BoolVal(names is source))
    return SSeq(c.n, lambda i: wrap(c.S(term(i))), 'list')
  core.assumption('contracts of Rules.find, Rule.rename and get_transformation (C24); _natural_sort returns every source name once')
  with use(m, _natural_sort=order, _IDENTITY_RULE=object.__new__(Ident)):
    try:
      out = m._flat_state_dict_mapping_build(source, target, Found(), raise_if_source_unmatched=c.strict_source, raise_if_target_unmatched=c.strict_target)
    except (KeyError, ValueError, TypeError) as e:
      if not isinstance(e, (KeyError, ValueError)): raise
      if hasattr(c, 'phase2'):
        obligation('only unassigned targets are rejected', missing(c, c.items2.order(term(c.at2))))
      else: obligation('only unacceptable sources are rejected', err(c, term(c.at)))
      return
  i, j = fresh_int('i', 0, c.n), fresh_int('j', 0, c.n)
  ki, kj = c.S(i.t), c.S(j.t)
  obligation('no source that must be rejected', z3.Not(err(c, i.t)))
  q = z3.Const(c.fresh('t'), Name)
  assume(c.tgt.member(q))
  pos = c.items2.position(wrap(q))
  assume(z3.And(pos >= 0, pos < term(c.tgt.n), c.items2.order(pos) == q))
  obligation('no target that must be assigned', z3.Not(missing(c, q)))
  if isinstance(out, Out):
    obligation('targets with a recipe', out.has(q) == c.H(c.n.t, q))
    obligation('recipe of each target', z3.Implies(out.has(q), out.val(q) == c.O(c.n.t, q)))
  else: obligation('recipes returned', z3.BoolVal(False))


@contract('C24', functions=[f'{MOD}._flat_state_dict_mapping_build'])
def assigned_once():
  """Lemma over the contract above: without an error, two sources share a target only by stacking."""
  c = core.cur()
  setup(c, None)
  c.tgt = KSpace(Name, fresh_int('targets', 0))
  c.strict_source = bool(core.choose(2))
  i, j = fresh_int('i', 0, c.n), fresh_int('j', 0, c.n)
  assume(i.t < j.t)
  x = z3.Int(c.fresh('x'))
  # induction: once marked, always marked (step and base of the induction on the distance).
  k = core.choose(2)
  d = c.dst(c.S(i.t))
  if k == 0:
    unfold(c, i)
    obligation('marked by its source', z3.Implies(c.kind(c.S(i.t)) != 1, c.U(i.t + 1, d)))
    s = fresh_int('s', 0)
    unfold(c, s)
    obligation('stays marked', z3.Implies(c.U(s.t, d), c.U(s.t + 1, d)))
  else:
    assume(z3.Implies(c.kind(c.S(i.t)) != 1, c.U(j.t, d)))   # by that induction
    obligation('a second assignment is only accepted for stacking',
               z3.Implies(z3.And(c.kind(c.S(i.t)) != 1, c.kind(c.S(j.t)) != 1, c.dst(c.S(j.t)) == d, z3.Not(err(c, j.t))), c.kind(c.S(j.t)) == 3))


# -- application.
def apply_inv(i, n, st):
  c = core.cur()
  d = st['txs_flat']
  q = z3.Const(c.fresh('q'), Name)
  done = c.txs.position(wrap(q)) < term(i)
  v = d.val(wrap(q)).t
  t = c.Tx(q)
  good = z3.And(c.Content(v) == c.Content(c.Run(t)), c.Dtype(v) == c.WantD(t), c.Shape(v) == c.WantS(t), z3.Not(mismatch(c, t)))
  return [('arrays so far have the content of their recipe and the type and shape of their target', z3.ForAll([q], z3.Implies(c.xs.member(q), z3.If(done, good, v == t))))]


def mismatch(c, t):
  r = c.Run(t)
  return z3.Or(z3.And(z3.BoolVal(c.strict_dtype), c.Dtype(r) != c.WantD(t)), z3.And(z3.BoolVal(c.strict_shape), c.Shape(r) != c.WantS(t)))


def apply_havoc(i, n, st):
  c = core.cur()
  F = z3.Function(c.fresh('Partly'), Name, Arr)
  c.at = i
  return dict(txs_flat=KDict(c.xs, lambda q: Node(F(term(q))), join=join))


loops.loop(MOD, '_flat_state_dict_mapping_apply.fn#0', vars=('txs_flat',), inv=apply_inv, havoc=apply_havoc)


@contract('C24', functions=[f'{MOD}._flat_state_dict_mapping_apply', f'{MOD}._raise_or_warn'], max_paths=120)
def applied():
  """Any set of targets, any subset with a recipe; any result types and shapes."""
  m = loader.load(MOD)
  c = core.cur()
  c.linear_decide = True
  f = lambda n, *s: z3.Function(c.fresh(n), *s)
  c.Shape, c.Dtype, c.WantS, c.WantD = f('Shape', Arr, Shp), f('Dtype', Arr, Dty), f('TargetShape', Arr, Shp), f('TargetType', Arr, Dty)
  c.Cast, c.Bcast, c.Run, c.Content = f('Cast', Arr, Dty, Arr), f('Broadcast', Arr, Shp, Arr), f('Result', Arr, Arr), f('Content', Arr, core.sort('Content'))
  a, d, s = z3.Const('a!', Arr), z3.Const('d!', Dty), z3.Const('s!', Shp)
  assume(z3.ForAll([a, d], z3.And(c.Dtype(c.Cast(a, d)) == d, c.Shape(c.Cast(a, d)) == c.Shape(a), c.Content(c.Cast(a, d)) == c.Content(a)), patterns=[c.Cast(a, d)]))
  assume(z3.ForAll([a, s], z3.And(c.Dtype(c.Bcast(a, s)) == c.Dtype(a), c.Shape(c.Bcast(a, s)) == s, c.Content(c.Bcast(a, s)) == c.Content(a)), patterns=[c.Bcast(a, s)]))
  c.Tx, W = f('Recipe', Name, Arr), f('TargetValue', Name, Arr)
  tgt = KSpace(Name, fresh_int('targets', 0))
  Sel = f('HasRecipe', Name, B)
  q = z3.Const('q!', Name)
  assume(z3.ForAll([q], z3.Implies(Sel(q), tgt.member(q)), patterns=[Sel(q)]))
  c.xs = KSpace(Name, fresh_int('recipes', 0), Sel)
  c.strict_dtype, c.strict_shape = bool(core.choose(2)), bool(core.choose(2))
  c.txs = KDict(c.xs, lambda k: Node(c.Tx(term(k))), join=join)
  orig = KDict(tgt, lambda k: Node(W(term(k))), join=join)
  c.txs.position(wrap(q))
  def pjit(fn, out_shardings=None, donate_argnums=None, **k):
    def run(x):
      w = z3.Const(c.fresh('w'), Name)
      obligation('sharding of the target of each array', z3.And(z3.BoolVal(out_shardings.space is c.xs), z3.BoolVal(out_shardings.val(wrap(w))[1].eq(c.Tx(w)))))
      return fn(KDict(c.xs, x.val, join=join) if False else x)
    return run
  core.assumption('assumed: pjit(f)(x) = f(x); broadcast_to/astype keep the content')
  class Partial(KDict):
    """The kept targets: new keys come from the recipes."""
  with use(m, pjit=ns(pjit=pjit), jnp=Over(m.jnp, broadcast_to=lambda v, s: Node(c.Bcast(v.t, term(s))))):
    try: r = m._flat_state_dict_mapping_apply(c.txs, orig, raise_if_dtype_mismatched=c.strict_dtype, raise_if_shape_mismatched=c.strict_shape)
    except ValueError:
      obligation('only mismatches are rejected', mismatch(c, c.Tx(c.txs.order(term(c.at))))); return
  w = z3.Const(c.fresh('t'), Name)
  assume(tgt.member(w))
  pos = c.txs.position(wrap(w))
  assume(z3.Implies(Sel(w), z3.And(pos >= 0, pos < term(c.xs.n))))
  has, v = r.lookup(w) if hasattr(r, 'lookup') else (r.space.member(w), r.val(wrap(w)).t)
  t = c.Tx(w)
  obligation('every target has a value', has)
  obligation('targets without a recipe keep their value', z3.Implies(z3.Not(Sel(w)), v == W(w)))
  obligation('targets with a recipe get its result', z3.Implies(Sel(w), z3.And(c.Content(v) == c.Content(c.Run(t)), c.Dtype(v) == c.WantD(t), c.Shape(v) == c.WantS(t))))
  obligation('no mismatch that must be rejected', z3.Implies(Sel(w), z3.Not(mismatch(c, t))))


# -- rules.
def find_inv(i, n, st):
  c = core.cur()
  j = z3.Int(c.fresh('j'))
  return [('no earlier rule matches', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(i)), z3.Not(c.match(j))), patterns=[c.match(j)]))]


loops.loop(RULES, 'Rules.find#0', inv=find_inv)


@contract('C24', functions=[f'{RULES}.Rules.find'])
def first_rule():
  """Any number of rules: the first that matches."""
  R = loader.load(RULES)
  c = core.cur()
  c.match = z3.Function(c.fresh('Matches'), I, B)
  n = fresh_int('rules', 0)
  class Rule:
    def __init__(self, i):
      self.i = i
      self.pattern = ns(search=lambda key: self.look(key))
    def look(self, key):
      obligation('looks for the pattern in the name', z3.BoolVal(key == 'name'))
      return object() if decide(c.match(term(self.i))) else None
  r = R.Rules(SSeq(n, lambda i: Rule(i), 'list')).find('name')
  j = z3.Int(c.fresh('j'))
  if r is None: obligation('none only if no rule matches', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.t), z3.Not(c.match(j)))))
  else: obligation('the first rule that matches', z3.And(term(r.i) >= 0, term(r.i) < n.t, c.match(term(r.i)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(r.i)), z3.Not(c.match(j))))))


SPECS = [((), 'RegexRule', {}), (('reshape',), 'ReshapeRule', dict(shape=None)), (('reshape', (2, 3)), 'ReshapeRule', dict(shape=(2, 3))), (('squeeze', 1), 'SqueezeRule', dict(axis=1)),
         (('stack', 2), 'StackRule', dict(axis=2)), (('expand_tile', 0, 4), 'ExpandTileRule', dict(axis=0, reps=4)), (('vit_zoom',), 'VitZoomRule', {}), (('zoom',), 'ZoomRule', {})]


@contract('C24', functions=[f'{RULES}.Rules.parse', f'{RULES}.RegexRule.rename', f'{RULES}.RegexRule.get_transformation', f'{RULES}.Rule.__post_init__'], bounded='lists of two rules')
def parsed_rules():
  R = loader.load(RULES)
  a, b = core.choose(len(SPECS) + 2), core.choose(3)
  def mk(i, p):
    if i < len(SPECS): return (p, r'new/\1', *SPECS[i][0]), SPECS[i][1], SPECS[i][2]
    return (p, [None, ''][i - len(SPECS)]), 'DropRule', {}
  given = [mk(a, '^old/(.*)$'), mk([0, 4, len(SPECS)][b], 'x(y)')]
  rules = R.Rules.parse([g[0] for g in given]).rules
  ok = len(rules) == 2 and all(type(r).__name__ == g[1] and r.pattern.pattern == g[0][0] and all(getattr(r, k) == v for k, v in g[2].items()) for r, g in zip(rules, given))
  obligation('one rule per entry, in order', z3.BoolVal(ok))
  keep = R.Rules.parse(rules).rules
  obligation('parsed rules are kept', z3.BoolVal(len(keep) == 2 and all(x is y for x, y in zip(keep, rules))))
  if a < len(SPECS): obligation('renames by the pattern', z3.BoolVal(rules[0].rename('old/k/v') == 'new/k/v'))
  try:
    R.Rules.parse([('a', 'b', 'unknown')])
    obligation('unknown transformations are rejected', z3.BoolVal(False))
  except ValueError: obligation('unknown transformations are rejected', z3.BoolVal(True))


def dims(k): return [T.new_dim(f'd{i}') for i in range(k)]


def idx(x): return [tuple(T.ivar(a, 'i') for a in ax) for ax in x.axes]


@contract('C24', functions=[f'{RULES}.ExpandTileTransformation.__call__', f'{RULES}.ExpandTileTransformation._make_reps', f'{RULES}.ExpandTileRule.get_transformation', f'{RULES}.CopyTransformation.__call__',
                            f'{RULES}.SqueezeTransformation.__call__', f'{RULES}.ReshapeTransformation.__call__', f'{RULES}.ReshapeRule.get_transformation', f'{RULES}.SqueezeRule.get_transformation'], max_paths=200)
def transformations():
  """Arrays of rank 0-3 with any sizes."""
  R = loader.load(RULES)
  D = dims(core.choose(4))
  k = core.choose(5)
  target = T.fresh_array('target', tuple(dims(2)))
  pat = re.compile('x')
  with use(R, jax=Over(R.jax, ShapeDtypeStruct=lambda shape=None, dtype=None, sharding=None: ns(shape=shape, dtype=dtype, sharding=sharding)), get_array_sharding_or_default=lambda a: 'sharding'):
    if k == 0:
      x = T.fresh_array('x', tuple(D))
      tx = R.RegexRule(pat, 'y').get_transformation(x, target)
      obligation('copies the array', z3.BoolVal(tx() is x))
    elif k == 1:
      x = T.fresh_array('x', tuple(D))
      axis = core.choose(len(D) + 1) if not core.choose(2) else core.choose(len(D) + 1) - len(D) - 1
      reps = T.new_dim('reps')
      tx = R.ExpandTileRule(pat, 'y', axis, reps).get_transformation(x, target) if not core.choose(2) else R.ExpandTileRule(pat, 'y', (axis,), (reps,)).get_transformation(x, target)
      y = tx()
      p = axis if axis >= 0 else axis + len(D) + 1
      obligation('one more axis with the copies', z3.BoolVal(y.ndim == x.ndim + 1))
      obligation('sizes', z3.And(*[term(a) == term(b) for a, b in zip(y.shape, [*D[:p], reps, *D[p:]])]))
      i = idx(x)
      r = (T.ivar(reps.atoms[0], 'r'),)
      full = [*i[:p], r, *i[p:]]
      obligation('every copy is the array', y.el(*[T.conv_digits(f, T.dim_atoms(s), a) for f, s, a in zip(full, [*D[:p], reps, *D[p:]], y.axes)]) == x.el(*i))
    elif k == 2:
      axis = core.choose(len(D) + 1)
      x = T.fresh_array('x', (*D[:axis], 1, *D[axis:]))
      y = R.SqueezeRule(pat, 'y', axis).get_transformation(x, target)()
      i = idx(y)
      obligation('the axis is removed', z3.And(z3.BoolVal(y.ndim == len(D)), *[term(a) == term(b) for a, b in zip(y.shape, D)], y.el(*i) == x.el(*i[:axis], (), *i[axis:])))
    else:
      if len(D) < 2: raise core.PathEnd()
      x = T.fresh_array('x', tuple(D))
      flat = T.mkdim([a for d in D for a in d.atoms])
      t2 = T.fresh_array('t2', (flat,))
      tx = (R.ReshapeRule(pat, 'y', (flat,)).get_transformation(x, target) if k == 3 else R.ReshapeRule(pat, 'y', None).get_transformation(x, t2))
      y = tx()
      i = idx(x)
      obligation('same elements in row-major order', z3.And(z3.BoolVal(y.ndim == 1), y.el(tuple(a for t in i for a in t)) == x.el(*i)))
      target = target if k == 3 else t2
    if k <= 1 or k >= 3:
      sd = tx.target_shape_dtype
      obligation('described by the target', z3.And(z3.BoolVal(sd.dtype == target.dtype and len(sd.shape) == target.ndim and sd.sharding == 'sharding'), *[term(a) == term(b) for a, b in zip(sd.shape, target.shape)]))


@contract('C24', functions=[f'{RULES}.StackTransformation.__call__', f'{RULES}.StackTransformation.append', f'{RULES}.StackRule.get_transformation'], bounded='stacks of at most 3 arrays of rank 0-2', max_paths=200)
def stacking():
  R = loader.load(RULES)
  D = dims(core.choose(3))
  n = 1 + core.choose(3)
  axis = core.choose(len(D) + 1) if not core.choose(2) else core.choose(len(D) + 1) - len(D) - 1
  xs = [T.fresh_array(f'x{j}', tuple(D)) for j in range(n)]
  with use(R, jax=Over(R.jax, ShapeDtypeStruct=lambda shape=None, dtype=None, sharding=None: ns(shape=shape, dtype=dtype, sharding=sharding)), get_array_sharding_or_default=lambda a: 'sharding'):
    tx = R.StackRule(re.compile('x'), 'y', axis).get_transformation(xs[0], xs[0])
    old = tx
    for x in xs[1:]: tx = tx.append(x)
    y = tx()
  p = axis if axis >= 0 else axis + len(D) + 1
  obligation('one more axis', z3.And(z3.BoolVal(y.ndim == len(D) + 1), term(y.shape[p]) == n))
  for j, x in enumerate(xs):
    z = y[(slice(None),) * p + (j,)]
    i = idx(x)
    obligation('in the order of the sources', z.el(*[T.conv_digits(a, b, c_) for a, b, c_ in zip(i, x.axes, z.axes)]) == x.el(*i))


@contract('C24', functions=[f'{RULES}.VitZoomTransformation.__call__', f'{RULES}.VitZoomTransformation._get_tok_and_grid_shape', f'{RULES}.ZoomTransformation.__call__', f'{RULES}.VitZoomRule.get_transformation', f'{RULES}.ZoomRule.get_transformation'],
          bounded='grids of at most 3x3 positions, any embedding size; scipy.ndimage.zoom assumed', max_paths=400)
def position_embeddings():
  R = loader.load(RULES)
  c = core.cur()
  s, t = 1 + core.choose(3), 1 + core.choose(3)
  st, tt, given = core.choose(2), core.choose(2), core.choose(2)
  H = T.new_dim('hidden')
  src_, dst = T.fresh_array('source', (1, s * s + st, H)), T.fresh_array('target', (1, t * t + tt, H))
  class SDS:
    def __init__(self, shape=None, dtype=None, sharding=None): self.shape, self.dtype, self.sharding, self.ndim = shape, dtype, sharding, len(shape)
  seen = []
  def zoom(cls, source, want, z):
    seen.append((source, want, z, T.fresh_array('zoomed', tuple(want.shape))))
    return seen[-1][3]
  tok = []
  def normal(key, shape, dtype=None):
    tok.append(T.fresh_array('random', tuple(shape)))
    return tok[-1]
  jx = Over(R.jax, ShapeDtypeStruct=SDS, random=ns(normal=normal, PRNGKey=lambda k: k))
  with use(R, jax=jx, get_array_sharding_or_default=lambda a: 'sharding'):
    old = R.ZoomTransformation.__dict__['_zoom']
    R.ZoomTransformation._zoom = classmethod(zoom)
    try: y = R.VitZoomRule(re.compile('x'), 'y').get_transformation(src_, dst if given else SDS((1, t * t + tt, H), 'float32'))()
    finally: R.ZoomTransformation._zoom = old
  core.assumption('assumed: scipy.ndimage.zoom (called through jax.pure_callback) resizes the grid')
  obligation('one resize', z3.BoolVal(len(seen) == 1))
  g, want, z, out = seen[0]
  obligation('grid of the source', z3.And(z3.BoolVal(g.ndim == 4 and len(want.shape) == 4), *[term(a) == term(b) for a, b in zip(g.shape, (1, s, s, H))], *[term(a) == term(b) for a, b in zip(want.shape, (1, t, t, H))]))
  obligation('factor per axis', z3.And(*[core.term(a) == b for a, b in zip(z[1:3], (z3.RealVal(t) / s, z3.RealVal(t) / s))]) if not all(isinstance(a, float) for a in z[1:3]) else z3.BoolVal(all(abs(a - t / s) < 1e-9 for a in z[1:3])))
  h = (T.ivar(H.atoms[0], 'h'),)
  at = lambda a, *i: (lambda w: w.el(*[h if d == w.ndim - 1 else T.conv_digits((), (), w.axes[d]) for d in range(w.ndim)]))(a[tuple(slice(j, j + 1) for j in i)])
  for i in range(s):
    for j in range(s): obligation('source position at its place', at(g, 0, i, j) == at(src_, 0, st + i * s + j))
  obligation('sizes', z3.And(z3.BoolVal(y.ndim == 3), *[term(a) == term(b) for a, b in zip(y.shape, (1, t * t + tt, H))]))
  for i in range(t):
    for j in range(t): obligation('resized position at its place', at(y, 0, tt + i * t + j) == at(out, 0, i, j))
  if tt and st: obligation('class token of the source', at(y, 0, 0) == at(src_, 0, 0))
  elif tt and given: obligation('class token of the target', at(y, 0, 0) == at(dst, 0, 0))


@contract('C24', functions=[f'{RULES}.ReshapeRule.get_transformation'])
def reshape_to_scalar():
  """An explicit shape, also the empty one, is used."""
  R = loader.load(RULES)
  x = T.fresh_array('x', (1,))
  with use(R, jax=Over(R.jax, ShapeDtypeStruct=lambda shape=None, dtype=None, sharding=None: ns(shape=shape, dtype=dtype, sharding=sharding)), get_array_sharding_or_default=lambda a: 'sharding'):
    y = R.ReshapeRule(re.compile('x'), 'y', ()).get_transformation(x, T.fresh_array('t', (1,)))()
  obligation('reshaped to a scalar', z3.BoolVal(y.ndim == 0))


@contract('C24', functions=[f'{MOD}.map_state_dict'])
def glued():
  """map_state_dict = flatten, build, apply, restore; every option reaches its place."""
  m = loader.load(MOD)
  want = [bool(core.choose(2)) for _ in range(4)]
  log = []
  class FS:
    def __init__(self, o): self.o = o
  def flat(d, sep=None, keep_empty_nodes=False, **k):
    obligation('names joined by slashes, empty nodes kept', z3.BoolVal(sep == '/' and keep_empty_nodes))
    return ('flat', d)
  def build(source_flat, target_flat, rules, raise_if_source_unmatched=True, raise_if_target_unmatched=True):
    obligation('builds from the flat states', z3.BoolVal(source_flat == ('flat', ('state', 'S')) and target_flat == ('flat', ('state', 'T')) and rules == 'rules'))
    obligation('unmatched-name options', z3.BoolVal((raise_if_source_unmatched, raise_if_target_unmatched) == (want[2], want[3])))
    return 'txs'
  def apply_(txs_flat, target_flat, raise_if_dtype_mismatched=False, raise_if_shape_mismatched=True):
    obligation('applies to the target', z3.BoolVal(txs_flat == 'txs' and target_flat == ('flat', ('state', 'T'))))
    obligation('mismatch options', z3.BoolVal((raise_if_dtype_mismatched, raise_if_shape_mismatched) == (want[0], want[1])))
    return 'out'
  tu = ns(flatten_dict=flat, unflatten_dict=lambda d, sep=None: ('nested', d, sep))
  ser = ns(to_state_dict=lambda t: ('state', t), from_state_dict=lambda t, d: ('restored', t, d))
  with use(m, flax=Over(m.flax, traverse_util=tu), serialization=ser, _flat_state_dict_mapping_build=build, _flat_state_dict_mapping_apply=apply_):
    r = m.map_state_dict('S', 'T', 'rules', raise_if_dtype_mismatched=want[0], raise_if_shape_mismatched=want[1], raise_if_source_unmatched=want[2], raise_if_target_unmatched=want[3])
  obligation('restored into the target', z3.BoolVal(r == ('restored', 'T', ('nested', 'out', '/'))))
