"""C13: length-checked zip and map (vmoe/utils.py)."""
import collections.abc
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, term, wrap, decide
from vc.engine import contract
from vc.seqs import SSeq

MOD = 'vmoe.utils'
El = core.sort('Element')


class GhostIter:
  """An arbitrary iterator: has(k) tells whether it still has an element."""
  __vc_symbolic__ = True

  def __init__(self, has, elem, log=None, k=None):
    self.has, self.elem, self.k = has, elem, k
    self.taken = 0

  def __iter__(self): return self
  def __next__(self):
    if decide(self.has):
      self.taken += 1
      return wrap(self.elem)
    raise StopIteration


collections.abc.Iterator.register(GhostIter)


def sources(n):
  has = z3.Function(core.cur().fresh('Has'), z3.IntSort(), z3.BoolSort())
  elem = z3.Function(core.cur().fresh('Elem'), z3.IntSort(), El)
  core.cur().c13 = (has, elem)
  return has, elem, SSeq(n, lambda i: GhostIter(has(term(i)), elem(term(i)), k=i), 'tuple')


# Invariant of the loop in __next__: the first p iterators had an element, the
# remaining p..i-1 did not; `elements` are the p elements in order; `stop` is
# None exactly when p == i.
def _havoc(i, n, outer):
  has, elem = core.cur().c13
  p = fresh_int('p', 0)
  core.cur().c13p = p
  els = SSeq(p, lambda j: wrap(elem(term(j))), 'list')
  if core.choose(2) == 0:
    assume(p.t == term(i))
    return dict(stop=None, elements=els)
  assume(p.t < term(i))
  return dict(stop=fresh_int('stop'), elements=els)


def _inv(i, n, st):
  has, elem = core.cur().c13
  els = st['elements']
  j = z3.Int(core.cur().fresh('j'))
  L = term(loader.b_len(els))
  out = [('elements-count', z3.And(L >= 0, L <= term(i))),
         ('first-have', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), has(j)))),
         ('rest-exhausted', z3.ForAll([j], z3.Implies(z3.And(j >= L, j < term(i)), z3.Not(has(j))))),
         ('stop-none-iff-all-have', (L == term(i)) if st['stop'] is None else (L < term(i)))]
  if st['stop'] is not None:
    s = term(st['stop'])
    out.append(('stop-is-exhausted-one', z3.And(s >= 0, s < term(i), z3.Not(has(s)))))
  if getattr(core.cur(), 'c13p', None) is None or els.__class__ is not SSeq:
    if isinstance(els, list) and els: out.append(('elements-start-empty', z3.BoolVal(False)))
  else:
    q = fresh_int('q', 0); 
    if decide(q.t < L):
      out.append(('elements-in-order', core.same(els.get(q), wrap(elem(q.t)))))
  return out


loops.loop(MOD, 'SafeZipIterator.__next__#0', vars=('stop', 'elements'), havoc=_havoc, inv=_inv)


@contract('C13', functions=['vmoe.utils.SafeZipIterator.__next__'])
def next_any_number_of_iterators():
  u = loader.load(MOD)
  n = fresh_int('num_iterators', 0)
  has, elem, its = sources(n)
  z = u.SafeZipIterator.__new__(u.SafeZipIterator)
  z.iterators = its
  a, b = fresh_int('a', 0, n), fresh_int('b', 0, n)
  try:
    r = z.__next__()
  except StopIteration:
    # a, b arbitrary: no source has an element.
    obligation('stops-only-when-all-are-exhausted', z3.Not(has(a.t)))
    return
  except u.SafeZipIteratorError:
    j = z3.Int('jj'); k = z3.Int('kk')
    obligation('error-only-on-different-lengths', z3.And(
        z3.Exists([j], z3.And(j >= 0, j < n.t, has(j))), z3.Exists([k], z3.And(k >= 0, k < n.t, z3.Not(has(k))))))
    return
  obligation('yields-only-when-all-have-an-element', z3.And(n.t >= 1, has(a.t)))
  obligation('yields-one-element-per-source', term(loader.b_len(r)) == n.t)
  obligation('yields-elements-in-order', core.same(r[a], wrap(elem(a.t))))


@contract('C13', functions=['vmoe.utils.SafeZipIterator.__next__'])
def next_no_iterators():
  u = loader.load(MOD)
  z = u.SafeZipIterator()
  try:
    z.__next__()
    obligation('stops-without-sources', z3.BoolVal(False))
  except StopIteration:
    obligation('stops-without-sources', z3.BoolVal(True))


class LenIterable:
  """Arbitrary iterable of length n with elements E(k, 0..n-1)."""
  __vc_symbolic__ = True

  def __init__(self, n, el, k, pos): self.n, self.el, self.k, self.pos = n, el, k, pos
  def __iter__(self): return LenIterator(self)


class LenIterator:
  __vc_symbolic__ = True

  def __init__(self, src):
    self.s, self.p = src, src.pos
  def __iter__(self): return self
  def __next__(self):
    if decide(term(self.p) < term(self.s.n)):
      e = wrap(self.s.el(z3.IntVal(self.s.k), term(self.p)))
      self.p = self.p + 1
      return e
    raise StopIteration


@contract('C13', functions=['vmoe.utils.SafeZipIterator', 'vmoe.utils.safe_zip', 'vmoe.utils.safe_map'])
def step_contract_of_streams():
  """One step of safe_zip/safe_map from any common position, any lengths, 1..4 sources
  (iterables and iterators): yields the aligned tuple at that position and advances
  every source by one, stops when all end there, and raises otherwise."""
  u = loader.load(MOD)
  k = 1 + core.choose(4)
  which = core.choose(2)
  el = z3.Function(core.cur().fresh('At'), z3.IntSort(), z3.IntSort(), El)
  pos = fresh_int('position', 0)
  lens = [fresh_int(f'len{j}', pos) for j in range(k)]
  srcs = [LenIterable(n, el, j, pos) for j, n in enumerate(lens)]
  mask = core.choose(2)
  args = [iter(s) if (j + mask) % 2 else s for j, s in enumerate(srcs)]
  if which == 0:
    it = u.safe_zip(*args)
  else:
    it = u.safe_map(lambda *a: a, *args)
  inner = getattr(it, 'iterators', None)
  def nxt(): return next(it)
  live = [n.t > pos.t for n in lens]
  try:
    r = nxt()
  except StopIteration:
    obligation('stops-only-when-all-end', z3.And(*[z3.Not(l) for l in live]))
    return
  except u.SafeZipIteratorError:
    obligation('error-only-on-different-lengths', z3.And(z3.Or(*live), z3.Not(z3.And(*live))))
    return
  obligation('yields-only-when-all-have-more', z3.And(*live))
  obligation('aligned-tuple', z3.And(z3.BoolVal(len(r) == k), *[core.same(r[j], wrap(el(z3.IntVal(j), pos.t))) for j in range(k)]))
  # second step starts at position + 1 in every source.
  try:
    r2 = nxt()
  except StopIteration:
    obligation('second-step-stops-only-when-all-end', z3.And(*[n.t == pos.t + 1 for n in lens]))
    return
  except u.SafeZipIteratorError:
    obligation('second-step-error-only-on-different-lengths', z3.And(z3.Or(*[n.t > pos.t + 1 for n in lens]), z3.Or(*[n.t <= pos.t + 1 for n in lens])))
    return
  obligation('second-step-aligned', z3.And(z3.BoolVal(len(r2) == k), *[core.same(r2[j], wrap(el(z3.IntVal(j), pos.t + 1))) for j in range(k)]))
