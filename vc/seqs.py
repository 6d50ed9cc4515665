"""Symbolic sequences: ranges, sequences and lists of unknown length."""
import z3
from vc import core
from vc.core import Unsupported, SInt, term, wrap, decide, Sym


class NoEq:
  """Symbolic containers: only identity is decided; any other comparison is out of reach."""

  def __eq__(self, o):
    if o is self: return True
    if o is None or o is NotImplemented: return False
    raise Unsupported(f'comparison of a symbolic {type(self).__name__}')

  def __ne__(self, o): return not self.__eq__(o)
  __hash__ = object.__hash__


class SSeq(NoEq):
  """Sequence of symbolic length n with element function get(i)."""
  __vc_symbolic__ = True

  def __init__(self, n, get, kind='list'):
    self.n, self.get, self.kind = n, get, kind

  def __vc_count__(self): return self.n
  def __vc_get__(self, i): return self.get(i)
  def __vc_len__(self): return self.n
  def __bool__(self): return decide(term(self.n) > 0)

  def __len__(self):
    if isinstance(self.n, int): return self.n
    raise Unsupported('len of a symbolic sequence in library code')

  def _conc(self):
    return isinstance(self.n, int) and self.n <= 8

  def __iter__(self):
    if self._conc(): return iter([self.get(j) for j in range(self.n)])
    raise Unsupported('iteration over a symbolic sequence without a loop contract')

  def __getitem__(self, i):
    if isinstance(i, slice):
      if i.step not in (None, 1, -1): raise Unsupported('slice step')
      if i.step == -1 and i.start is None and i.stop is None:
        n = term(self.n)
        return SSeq(self.n, lambda j: self.get(wrap(n - 1 - term(j))), self.kind)
      lo = 0 if i.start is None else i.start
      hi = self.n if i.stop is None else i.stop
      n = term(self.n)
      lo, hi = term(lo), term(hi)
      if decide(z3.And(lo >= 0, hi >= lo, hi <= n)):
        return SSeq(wrap(hi - lo), lambda j: self.get(wrap(term(j) + lo)), self.kind)
      raise Unsupported('slice bounds of a symbolic sequence')
    t = term(i)
    if decide(z3.And(t >= 0, t < term(self.n))): return self.get(wrap(t))
    if decide(z3.And(t < 0, t >= -term(self.n))): return self.get(wrap(t + term(self.n)))
    raise IndexError('index out of range')

  def __vc_enumerate__(self, start):
    return SSeq(self.n, lambda i: (wrap(term(i) + term(start)), self.get(i)))

  def __vc_zip__(self, its, strict):
    seqs = [asseq(x) for x in its]
    if any(s.n is None for s in seqs) and strict: raise Unsupported('strict zip with an endless sequence')
    n = [s.n for s in seqs if s.n is not None][0]    # n is None: endless
    for s in seqs[1:]:
      if s.n is None or s.n is n: continue
      if not decide(term(s.n) == term(n)):
        if strict: raise ValueError('zip() arguments have different lengths')
        raise Unsupported('zip of sequences of different symbolic lengths')
    return SSeq(n, lambda i: tuple(s.get(i) for s in seqs))

  def __vc_map__(self, f, its):
    z = self.__vc_zip__(its, False)
    return SSeq(z.n, lambda i: f(*z.get(i)))

  def __vc_comp__(self, kind, cond, *fs):
    if cond is not None:
      if kind in ('gen', 'list'): return SFilter(self, cond, fs[0])
      return NotImplemented
    if kind in ('list', 'gen'):
      return SSeq(self.n, lambda i: fs[0](self.get(i)))
    if kind == 'dict': return SDict(SSeq(self.n, lambda i: (fs[0](self.get(i)), fs[1](self.get(i)))))
    return NotImplemented

  def __vc_tuple__(self): return SSeq(self.n, self.get, 'tuple')
  def __vc_list__(self): return SSeq(self.n, self.get, 'list')
  def __vc_dict__(self): return SDict(self)

  def __vc_types__(self): return (tuple,) if self.kind == 'tuple' else (list,)

  def append(self, x):
    if self.kind != 'list': raise AttributeError('append')
    old, n = self.get, term(self.n)
    self.n = wrap(z3.simplify(n + 1))
    def g(i):
      t = term(i)
      if decide(t == n): return x
      return old(i)
    self.get = g


  def __vc_sorted__(self, key=None, reverse=False): return SSorted(self, key, reverse)

  def _extreme(self, is_max, key, default):
    if key is not None: raise Unsupported('max/min with a key over a symbolic sequence')
    c = core.cur()
    n = term(self.n)
    if not decide(n > 0):
      if default is core: raise ValueError('max()/min() iterable argument is empty')
      return default
    w, j = z3.Int(c.fresh('argmax')), z3.Int(c.fresh('j'))
    core.assume(z3.And(w >= 0, w < n))
    r = term(self.get(wrap(w)))
    x = term(self.get(wrap(j)))
    core.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), x <= r if is_max else x >= r)))
    return wrap(r)

  def __vc_max__(self, key=None, default=core): return self._extreme(True, key, default)
  def __vc_min__(self, key=None, default=core): return self._extreme(False, key, default)

  def at_const(self, t): return self.get(wrap(t))


class SSorted(SSeq):
  """sorted(): a permutation of the sequence with ordered keys (stable)."""

  def __init__(self, src, key, reverse):
    c = core.cur()
    n = term(src.n)
    P = z3.Function(c.fresh('perm'), z3.IntSort(), z3.IntSort())
    Q = z3.Function(c.fresh('perminv'), z3.IntSort(), z3.IntSort())
    i, j = z3.Int(c.fresh('pi')), z3.Int(c.fresh('pj'))
    rng = lambda x: z3.And(x >= 0, x < n)
    core.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
    core.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(Q(i)), P(Q(i)) == i)), patterns=[Q(i)]))
    kf = key or (lambda x: x)
    def lt(a, b):  # key(a) <= key(b)
      ka, kb = kf(src.get(wrap(a))), kf(src.get(wrap(b)))
      return lex_le(kb, ka) if reverse else lex_le(ka, kb)
    body = lt(P(i), P(j))
    core.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), body), patterns=[z3.MultiPattern(P(i), P(j))]))
    super().__init__(src.n, lambda k: src.get(wrap(P(term(k)))), 'list')
    self.P, self.Q, self.src = P, Q, src


def lex_le(a, b):
  """a <= b for scalars or tuples of scalars, as a formula."""
  if isinstance(a, tuple):
    if len(a) != len(b): raise Unsupported('comparison of tuples of different lengths')
    if not a: return z3.BoolVal(True)
    x, y = core.unify(core.num(term(a[0])), core.num(term(b[0])))
    return z3.Or(x < y, z3.And(x == y, lex_le(a[1:], b[1:])))
  x, y = core.unify(core.num(term(a)), core.num(term(b)))
  return x <= y


class Guarded:
  """List of the values whose guard holds (in order)."""
  __vc_symbolic__ = True

  def __init__(self, items): self.items = items
  def __bool__(self): return decide(z3.Or(*[g for g, _ in self.items]) if self.items else z3.BoolVal(False))
  def __vc_len__(self): return wrap(z3.Sum(*[z3.If(g, 1, 0) for g, _ in self.items])) if self.items else 0
  def __iter__(self): return iter([v for g, v in self.items if decide(g)])

  def _pick(self, items):
    if not decide(z3.Or(*[g for g, _ in items]) if items else z3.BoolVal(False)): raise IndexError('list index out of range')
    if all(isinstance(v, int) for _, v in items):
      x = core.fresh_int('pick')
      alts, before = [], []
      for g, v in items:
        alts.append(z3.And(x.t == v, g, *[z3.Not(b) for b in before])); before.append(g)
      core.assume(z3.Or(*alts))
      core.cur().picks[x.t.get_id()] = [v for _, v in items]
      return x
    for g, v in items:
      if decide(g): return v

  def __getitem__(self, i):
    if i == 0: return self._pick(self.items)
    if i == -1: return self._pick(self.items[::-1])
    return list(self)[i]

  def __vc_min__(self, key=None, default=core):
    if key is not None: return min(list(self), key=key)
    it = sorted(self.items, key=lambda p: p[1])
    try: return self._pick(it)
    except IndexError:
      if default is core: raise ValueError('min() iterable argument is empty')
      return default

  def __vc_max__(self, key=None, default=core):
    if key is not None: return max(list(self), key=key)
    it = sorted(self.items, key=lambda p: p[1])[::-1]
    try: return self._pick(it)
    except IndexError:
      if default is core: raise ValueError('max() iterable argument is empty')
      return default


class SFam(NoEq):
  """Family of values indexed by ghost parameters: all f(p1..pk), 0 <= pj < nj."""
  __vc_symbolic__ = True

  def __init__(self, counts, get): self.counts, self.get = counts, get
  def map(self, f): return SFam(self.counts, lambda *p: f(self.get(*p)))

  def product(self, fb, f):
    # counts of the inner range may not depend on the outer parameters.
    probe = [core.fresh_int('probe', 0, n) for n in self.counts]
    b = fb(self.get(*probe))
    if not hasattr(type(b), '__vc_count__'):
      raise Unsupported('family product with a concrete range')
    inner = asfam(b)
    from vc.tensor import free_consts
    ids = {x.t.get_id() for x in probe}
    for n in inner.counts:
      if ids & set(free_consts(term(n))): raise Unsupported('dependent family')
    k = len(self.counts)
    def get(*p):
      x = self.get(*p[:k])
      return f(x, asfam(fb(x)).get(*p[k:]))
    return SFam(list(self.counts) + list(inner.counts), get)

  def __vc_comp__(self, kind, cond, *fs):
    if cond is not None or kind not in ('list', 'gen'): raise Unsupported('filtered family')
    return self.map(fs[0])

  def __vc_list__(self): return self
  def __vc_tuple__(self): return self
  def __vc_map__(self, f, its):
    if len(its) != 1: raise Unsupported('map over families')
    return self.map(f)

  def __vc_count__(self): raise Unsupported('loop over a family')
  def __iter__(self): raise Unsupported('iteration over a family')
  def __vc_len__(self):
    r = 1
    for n in self.counts: r = r * n
    return r

  def arbitrary(self):
    p = [core.fresh_int('par', 0, n) for n in self.counts]
    return p, self.get(*p)


def asfam(x):
  if isinstance(x, SFam): return x
  if isinstance(x, (SSeq, SRange)): return SFam([x.__vc_count__()], lambda i: x.__vc_get__(i))
  if isinstance(x, (list, tuple)): raise Unsupported('family of a concrete list')
  raise Unsupported(f'not a family: {type(x).__name__}')


class SDict(NoEq):
  """dict made of a symbolic sequence of (key, value) pairs (keys pairwise distinct)."""
  __vc_symbolic__ = True

  def __init__(self, pairs): self.pairs = pairs
  def items(self): return SSeq(self.pairs.n, self.pairs.get)
  def keys(self): return SSeq(self.pairs.n, lambda i: self.pairs.get(i)[0])
  def values(self): return SSeq(self.pairs.n, lambda i: self.pairs.get(i)[1])
  def __vc_len__(self): return self.pairs.n
  def __iter__(self): raise Unsupported('iteration over a symbolic dict')
  def __vc_dict__(self): return SDict(self.pairs)


def for_member(space, q, thunk):
  """thunk(): the value at q, which only exists if q is a key of space."""
  c = core.cur()
  if not hasattr(c, 'members'): c.members = []
  c.members.append((space, q))
  try: return thunk()
  finally: c.members.pop()


class KItems(SSeq):
  """items()/keys() of a KDict: sorting by the key gives the canonical order of the key set."""

  def __init__(self, d, f, keys=False):
    self.d, self.f, self.keys = d, f, keys
    super().__init__(d.space.n, lambda i: f(wrap(d.order(term(i)))))

  def __eq__(self, o):
    if isinstance(o, KItems) and self.keys and o.keys and o.d.space is self.d.space: return True   # keys(): compared as sets
    return super().__eq__(o)
  __hash__ = object.__hash__

  def __vc_comp__(self, kind, cond, *fs):
    if kind == 'dict':
      probe = wrap(z3.Const(core.cur().fresh('probe'), self.d.space.sort))
      k = fs[0](self.f(probe))
      if isinstance(k, core.Sym) and z3.eq(term(k), probe.t):
        f, d = self.f, self.d
        sp = d.space if cond is None else d.space.subset(lambda q: cond(f(q)))
        return KDict(sp, lambda q: for_member(sp, q, lambda: fs[1](f(q))), 'order', join=d.join)
    return super().__vc_comp__(kind, cond, *fs)

  def __vc_sorted__(self, key=None, reverse=False):
    sp = self.d.space
    probe = wrap(z3.Const(core.cur().fresh('probe'), sp.sort))
    k = (key or (lambda x: x))(self.f(probe))
    if isinstance(k, tuple) and key is None: k = k[0]   # distinct keys: the values are never compared
    if not (isinstance(k, core.Sym) and z3.eq(term(k), probe.t)): raise Unsupported('sorting dict items by something else than the key')
    if reverse: raise Unsupported('reverse sorted dict items')
    core.assumption('assumed: sorting the items of a dict by their (distinct) keys depends only on the set of keys')
    return SSeq(sp.n, lambda i: self.f(wrap(sp.canon(term(i)))))


class KSpace:
  """A finite set of n keys of an uninterpreted sort."""

  def __init__(self, sort_, n, member=None):
    c = core.cur()
    self.sort, self.n = sort_, n
    self.member = member if member is not None else z3.Function(c.fresh('IsKey'), sort_, z3.BoolSort())
    self.inverse = {}
    self.canon = self.enumeration('canon')

  def subset(self, cond):
    """The keys for which cond (key -> truth, any branching) holds."""
    c = core.cur()
    k = z3.Const(c.fresh('sub'), self.sort)
    body = core.merge_bool(lambda: cond(wrap(k)), quantified=True)
    P = z3.Function(c.fresh('InSubset'), self.sort, z3.BoolSort())
    core.assume(z3.ForAll([k], P(k) == z3.And(self.member(k), body), patterns=[P(k)]))
    return KSpace(self.sort, core.fresh_int('subset', 0), P)

  def enumeration(self, name):
    c = core.cur()
    K = z3.Function(c.fresh(name), z3.IntSort(), self.sort)
    Q = z3.Function(c.fresh(name + '_inv'), self.sort, z3.IntSort())
    i, k = z3.Int(c.fresh('ki')), z3.Const(c.fresh('kk'), self.sort)
    n = term(self.n)
    core.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(self.member(K(i)), Q(K(i)) == i)), patterns=[K(i)]))
    core.assume(z3.ForAll([k], z3.Implies(self.member(k), z3.And(Q(k) >= 0, Q(k) < n, K(Q(k)) == k)), patterns=[Q(k)]))
    self.inverse[K.name()] = Q
    return K


class KDict(NoEq):
  """dict over a key space, enumerated in an arbitrary order of its own."""
  __vc_symbolic__ = True

  def __init__(self, space, val, name='order', join=core.ite):
    self.space, self.val, self.join = space, val, join
    self.order = space.enumeration(name)

  def position(self, k): return self.space.inverse[self.order.name()](term(k))

  def __setitem__(self, k, v):
    kt, old = term(k), self.val
    m = self.space.member(kt)
    if not core.entailed(m) and not decide(m): raise Unsupported('new key in a symbolic dict')
    self.val = lambda q: self.join(term(q) == kt, v, old(q))

  def _merged(self, o):
    """Space and values of this dict overwritten by those of o."""
    if not isinstance(o, KDict): raise Unsupported('merging a symbolic dict with something else')
    c = core.cur()
    k = z3.Const(c.fresh('k'), self.space.sort)
    a, b, h, g = self.val, o.val, self.space.member, o.space.member
    space = self.space
    if o.space is not space and not core.entailed(z3.Implies(g(k), h(k))):
      # new keys: the union (the order of a dict with new keys is left open).
      P = z3.Function(c.fresh('InUnion'), space.sort, z3.BoolSort())
      core.assume(z3.ForAll([k], P(k) == z3.Or(h(k), g(k)), patterns=[P(k)]))
      space = KSpace(space.sort, core.fresh_int('union', 0), P)
    return space, lambda q: self.join(g(term(q)), b(q), a(q))

  def update(self, o):
    old = self.space
    self.space, self.val = self._merged(o)
    if self.space is not old: self.order = self.space.enumeration('order')
  def __or__(self, o): return KDict(*self._merged(o), join=self.join)
  def __ior__(self, o): self.update(o); return self
  def copy(self): return KDict(self.space, self.val, join=self.join)
  def __vc_dict__(self): return self.copy()
  def items(self): return KItems(self, lambda k: (k, self.val(k)))
  def keys(self): return KItems(self, lambda k: k, keys=True)
  def values(self): return SSeq(self.space.n, lambda i: self.val(wrap(self.order(term(i)))))
  def __vc_len__(self): return self.space.n
  def __vc_count__(self): return self.space.n
  def __vc_get__(self, i): return self.keys().get(i)
  def __vc_comp__(self, kind, cond, *fs): return self.keys().__vc_comp__(kind, cond, *fs)
  def __vc_sorted__(self, key=None, reverse=False): return self.keys().__vc_sorted__(key, reverse)
  def __vc_list__(self): return self.keys()
  def __vc_tuple__(self): return self.keys()
  def __vc_map__(self, f, its): return self.keys().__vc_map__(f, [i.keys() if isinstance(i, KDict) else i for i in its])
  def __vc_zip__(self, its, strict): return self.keys().__vc_zip__([i.keys() if isinstance(i, KDict) else i for i in its], strict)
  def __iter__(self): raise Unsupported('iteration over a symbolic dict')
  def __contains__(self, k): return decide(self.space.member(term(k)))
  def __getitem__(self, k):
    for sp, q in getattr(core.cur(), 'members', ()):
      if isinstance(k, core.Sym) and z3.eq(term(q), term(k)):
        # evaluated lazily for the keys of a comprehension: only those must be present.
        core.obligation('keys of the comprehension are present', z3.Implies(sp.member(term(q)), self.space.member(term(k))))
        return self.val(k)
    if not decide(self.space.member(term(k))): raise KeyError('key not in dict')
    return self.val(k)
  def get(self, k, d=None): return self.val(k) if k in self else d


class FamDict(NoEq):
  """dict built from families of (key, value) pairs."""
  __vc_symbolic__ = True

  def __init__(self, rows): self.rows = rows


class SFilter(NoEq):
  """Filtered comprehension over a symbolic sequence."""
  __vc_symbolic__ = True

  def __init__(self, seq, cond, f): self.seq, self.cond, self.f = seq, cond, f

  def _first(self, last=False):
    c = core.cur()
    n = term(self.seq.n)
    j = z3.Int(c.fresh('fj'))
    body = core.merge_bool(lambda: self.cond(self.seq.get(wrap(j))), quantified=True)
    rng = z3.And(j >= 0, j < n)
    some = z3.Exists([j], z3.And(rng, body))
    if not decide_exists(some): raise IndexError('list index out of range')
    w = z3.Int(c.fresh('first'))
    hit = z3.substitute(body, (j, w))
    core.assume(z3.And(w >= 0, w < n, hit))
    core.assume(z3.ForAll([j], z3.Implies(z3.And(rng, (j > w) if last else (j < w)), z3.Not(body))))
    return self.f(self.seq.get(wrap(w)))

  def __getitem__(self, i):
    if i == 0: return self._first()
    if i == -1: return self._first(True)
    raise Unsupported('index into a filtered sequence')

  def __vc_next__(self, *d):
    try: return self._first()
    except IndexError:
      if d: return d[0]
      raise StopIteration

  def __vc_iter__(self): return self
  def __vc_list__(self): return self
  def __vc_tuple__(self): return self

  def __vc_any__(self):
    j = z3.Int(core.cur().fresh('fj'))
    body = core.merge_bool(lambda: core.conj(bool_(self.cond(self.seq.get(wrap(j)))), bool_(self.f(self.seq.get(wrap(j))))), quantified=True)
    return wrap(z3.Exists([j], z3.And(j >= 0, j < term(self.seq.n), body)))

  def __iter__(self): raise Unsupported('iteration over a filtered symbolic sequence')
  def __bool__(self): raise Unsupported('truth of a filtered symbolic sequence')


def bool_(x):
  return x if isinstance(x, (bool, core.SBool)) else bool(x)


def decide_exists(f):
  """Branches on an existential formula; provable existence needs no branch."""
  c = core.cur()
  return decide(f)


def asseq(x):
  if isinstance(x, SSeq): return x
  if isinstance(x, SRange): return SSeq(x.__vc_len__(), x.__vc_get__)
  if isinstance(x, (list, tuple)):
    def get(i):
      if isinstance(i, int): return x[i]
      for k, v in enumerate(x):
        if decide(term(i) == k): return v
      raise IndexError
    return SSeq(len(x), get)
  raise Unsupported(f'not a sequence: {type(x).__name__}')


class SRange(NoEq):
  """range() with symbolic bounds (positive step)."""
  __vc_symbolic__ = True

  def __init__(self, *a):
    self.lo, self.hi, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(self.step, int) and self.step == 1: return
    st = term(self.step)
    if decide(st == 0): raise ValueError('range() arg 3 must not be zero')
    if not decide(st > 0): raise Unsupported('range with a negative symbolic step')
    self._n = None

  def __vc_len__(self):
    lo, hi = term(self.lo), term(self.hi)
    if isinstance(self.step, int) and self.step == 1:
      return wrap(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))))
    if self._n is None:
      # ghost count: lo + (n-1)*step < hi <= lo + n*step  (or n == 0).
      n = z3.Int(core.cur().fresh('count'))
      st = term(self.step)
      core.assume(z3.And(n >= 0, z3.If(hi > lo, z3.And(n >= 1, lo + (n - 1) * st < hi, hi <= lo + n * st), n == 0)))
      for (a, b, q, r) in core.cur().divmods:
        # lemma: a range of length b*q walked with step q > 0 has b elements.
        if q.eq(st) and decide(z3.And(r == 0, a == hi - lo)): core.assume(z3.And(n == b, n * st == hi - lo))
      self._n = wrap(n)
    return self._n

  def __vc_count__(self): return self.__vc_len__()
  def __vc_get__(self, i):
    if isinstance(self.step, int) and self.step == 1: return wrap(term(i)) if isinstance(self.lo, int) and self.lo == 0 else wrap(term(i) + term(self.lo))
    if core.active() and not hasattr(core.cur(), 'in_merge'):
      # lemma (monotonicity of multiplication): 0 <= i < n, st > 0.
      i_, st, n = term(i), term(self.step), term(self.__vc_len__())
      core.assume(z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(i_ * st >= 0, i_ * st + st <= n * st)))
    return wrap(term(i) * term(self.step) + term(self.lo))
  def __vc_comp__(self, kind, cond, *fs): return asseq(self).__vc_comp__(kind, cond, *fs)
  def __vc_enumerate__(self, s): return asseq(self).__vc_enumerate__(s)
  def __vc_zip__(self, its, strict): return asseq(self).__vc_zip__(its, strict)
  def __vc_map__(self, f, its): return asseq(self).__vc_map__(f, its)
  def __vc_list__(self): return asseq(self)
  def __vc_tuple__(self): return SSeq(self.__vc_len__(), self.__vc_get__, 'tuple')

  def __iter__(self):
    h = getattr(core.cur(), 'range_handler', None)
    if h is not None:
      return h(self)
    raise Unsupported('loop over a symbolic range without a loop contract')
