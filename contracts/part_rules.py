"""C15: partition rules (vmoe/partitioning.py)."""
import types as _types
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, fresh_bool, term, wrap, decide
from vc.engine import contract
from vc.seqs import SSeq, SDict

MOD = 'vmoe.partitioning'
Str = core.sort('Text')


class Spec:
  """A PartitionSpec (or an unparsed one) of rule i; None: replicated."""
  def __init__(self, i, parsed): self.i, self.parsed = i, parsed


class Regex:
  def __init__(self, i): self.i = i
  def search(self, key): return wrap(core.cur().match(term(self.i), key.t))


class Pattern:
  def __init__(self, i): self.i = i


class Shape:
  __vc_symbolic__ = True
  def __init__(self, n): self.n = n
  def __vc_prod__(self): return self.n


class Leaf:
  __vc_symbolic__ = True
  def __init__(self, i, size): self.i, self.size, self.shape = i, size, Shape(size)


EMPTY = object()


def first(i, n, st):
  """No rule before i applies."""
  c = core.cur()
  j = z3.Int(c.fresh('j'))
  key, val = st['key'], st['value']
  return [('no earlier rule applies', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(i)), z3.Not(z3.And(c.match(j, key.t), term(val.size) > 1)))))]


loops.loop(MOD, 'tree_axis_resources_from_regexes.search_partition_spec#0', inv=first)


@contract('C15', functions=[f'{MOD}.tree_axis_resources_from_regexes'], max_paths=200)
def first_rule_decides():
  """Any number of rules, any number of leaves of any size; matching is an arbitrary predicate."""
  m = loader.load(MOD)
  c = core.cur()
  c.match = z3.Function(c.fresh('Match'), z3.IntSort(), Str, z3.BoolSort())
  keyf = z3.Function(c.fresh('Path'), z3.IntSort(), Str)
  sizef = z3.Function(c.fresh('Size'), z3.IntSort(), z3.IntSort())
  emptyf = z3.Function(c.fresh('IsEmpty'), z3.IntSort(), z3.BoolSort())
  nr, nl = fresh_int('rules', 0), fresh_int('leaves', 0)
  rules = SSeq(nr, lambda i: (Pattern(i), Spec(i, False)), 'list')
  def leaf(i): return (wrap(keyf(term(i))), EMPTY if decide(emptyf(term(i))) else Leaf(i, wrap(sizef(term(i)))))
  flat = SDict(SSeq(nl, leaf))
  tree, log = object(), []
  def flatten(d, keep_empty_nodes=False, sep=None):
    obligation('leaves of the given tree', z3.BoolVal(d == ('state', tree)))
    obligation('empty nodes are kept', z3.BoolVal(keep_empty_nodes is True))
    return flat
  def unflatten(d, sep=None): return ('tree', d)
  def from_state(t, d):
    obligation('structure of the given tree', z3.BoolVal(t is tree))
    return d
  class TU: pass
  core.assumption('assumed: to_state_dict/flatten_dict list every leaf once under its path, unflatten_dict/from_state_dict put values back under their paths; re.search is a predicate of (pattern, path)')
  olds = m.flax, m.re, m.PartitionSpec, m.parse_partition_spec
  m.flax = _types.SimpleNamespace(
      traverse_util=_types.SimpleNamespace(empty_node=EMPTY, flatten_dict=flatten, unflatten_dict=unflatten),
      serialization=_types.SimpleNamespace(to_state_dict=lambda t: ('state', t), from_state_dict=from_state))
  def compile_(p, flags=0):
    obligation('patterns are compiled as given, without flags', z3.BoolVal(int(flags) == 0))
    return Regex(p.i)
  m.re = _types.SimpleNamespace(compile=compile_, search=lambda p, k, flags=0: compile_(p, flags).search(k))
  m.PartitionSpec = lambda *a: Spec(None, True) if not a else _bad()
  m.parse_partition_spec = lambda s: Spec(s.i, True)
  try:
    r = m.tree_axis_resources_from_regexes(tree=tree, axis_resources_regexes=rules)
    obligation('a tree is returned', z3.BoolVal(isinstance(r, tuple) and r[0] == 'tree' and isinstance(r[1], SDict)))
    pairs = r[1].pairs
    obligation('same number of leaves', term(pairs.n) == nl.t)
    i = fresh_int('leaf', 0, nl)
    k, v = pairs.get(i)
  finally:
    m.flax, m.re, m.PartitionSpec, m.parse_partition_spec = olds
  obligation('same path', core.same(k, wrap(keyf(i.t))))
  empty = emptyf(i.t)
  if v is EMPTY:
    obligation('only empty nodes stay empty', empty); return
  obligation('empty nodes stay empty', z3.Not(empty))
  obligation('a parsed partition', z3.BoolVal(isinstance(v, Spec) and v.parsed))
  j = z3.Int(c.fresh('j'))
  big = sizef(i.t) > 1
  if v.i is None:
    obligation('replicated only when no rule matches or not more than one element',
               z3.Or(z3.Not(big), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nr.t), z3.Not(c.match(j, keyf(i.t)))))))
  else:
    w = term(v.i)
    obligation('rule exists', z3.And(w >= 0, w < nr.t))
    obligation('rule matches', c.match(w, keyf(i.t)))
    obligation('arrays with at most one element are replicated', big)
    obligation('no earlier rule matches', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(c.match(j, keyf(i.t))))))


def _bad(): raise core.Unsupported('PartitionSpec with arguments')


class PS(tuple):
  def __new__(cls, *a): return tuple.__new__(cls, a)


@contract('C15', functions=[f'{MOD}.parse_partition_spec'])
def partition_description():
  """A name, a sequence of names (any names), nothing, or a PartitionSpec."""
  m = loader.load(MOD)
  old = m.PartitionSpec
  m.PartitionSpec = PS
  a, b = core.fresh_str('name'), core.fresh_str('name')
  assume(z3.Length(a.t) > 0)
  try:
    k = core.choose(7)
    arg, want = [(PS(a, None), (a, None)), (None, ()), ('', ()), ((), ()), (a, (a,)), ((a, b), (a, b)), ([None, (a, b)], (None, (a, b)))][k]
    r = m.parse_partition_spec(arg)
  finally:
    m.PartitionSpec = old
  obligation('a PartitionSpec', z3.BoolVal(isinstance(r, PS)))
  obligation('with the given entries', z3.BoolVal(len(r) == len(want) and all(x is y or x == y if not isinstance(x, core.SStr) else x is y for x, y in zip(r, want))))
