"""C01, C02, C03, C04, C05: routing, dispatch and combine (vmoe/moe.py)."""
import functools
import z3
import jax
from vc import core, loader, tensor as T, prove
from vc.core import assume, obligation, fresh_int, fresh_real, term
from vc.engine import contract


def moe():
  return loader.load('vmoe.moe')


def dims(*names):
  return [T.new_dim(n) for n in names]


def lin(x):
  return T.dim_term(x)


def _common_setup(S, E, K):
  assume(lin(K) <= lin(E))
  gates = T.fresh_array('gates', (S, E))
  return gates


# ---------------------------------------------------------------- C01 / C02 ----
def _common_contract(with_count):
  """Contract of _get_top_experts_per_item_common on every path."""
  S, E, K = dims('S', 'E', 'K')
  gates = _common_setup(S, E, K)
  bp = bool(core.choose(2))
  cw, ei, bi = moe()._get_top_experts_per_item_common(gates, K, bp)
  s, k, e = T.ivar(S.atoms[0], 's'), T.ivar(K.atoms[0], 'k'), T.ivar(E.atoms[0], 'e')
  s2, k2 = T.ivar(S.atoms[0], 's2'), T.ivar(K.atoms[0], 'k2')
  _, top = T.top_k(gates, K)
  chosen = top.el(s, k)
  return S, E, K, gates, bp, cw, ei, bi, s, k, e, s2, k2, top, chosen


@contract('C01', functions=['vmoe.moe._get_top_experts_per_item_common'])
def common_assignment():
  S, E, K, gates, bp, cw, ei, bi, s, k, e, s2, k2, top, chosen = _common_contract(False)
  obligation('selected-expert-is-kth-best', ei.el(s, k) == chosen)
  obligation('combine-weight-is-its-gate', cw.el(s, k) == gates.el(s, chosen))
  obligation('buffer-index-only-for-selected-expert', z3.Implies(e != chosen, bi.el(s, k, e) == -1))
  obligation('buffer-index-non-negative-for-selected', bi.el(s, k, chosen) >= 0)
  obligation('slots-pairwise-distinct', z3.Implies(
      z3.And(z3.Or(s != s2, k != k2), bi.el(s, k, e) >= 0, bi.el(s2, k2, e) >= 0),
      bi.el(s, k, e) != bi.el(s2, k2, e)))


def before(bp, gates, top, s1, s2):
  """s1 has priority over s2 within a rank."""
  if not bp: return s1 < s2
  m1, m2 = gates.el(s1, top.el(s1, z3.IntVal(0))), gates.el(s2, top.el(s2, z3.IntVal(0)))
  return z3.Or(m1 > m2, z3.And(m1 == m2, s1 < s2))


def count_spec(bp, S, K, gates, top, s, k, e):
  """Number of assignments to e of at least the priority of (k, s)."""
  sb, kb = T.bvar(S.atoms[0], 'sb'), T.bvar(K.atoms[0], 'kb')
  le = z3.Or(kb < k, z3.And(kb == k, z3.Or(sb == s, before(bp, gates, top, sb, s))))
  body = z3.If(z3.And(top.el(sb, kb) == e, le), z3.IntVal(1), z3.IntVal(0))
  return T.make_sum([kb, sb], [K.atoms[0], S.atoms[0]], body)


def perm_maps(S):
  """Re-indexings of the item axis: by each permutation the code computed."""
  c = core.cur()
  out = [{}]
  for tf in list(c.theory.values()):
    if tf.kind == 'perm' and tf.body is not None and len(tf.params) == 1:
      out.append({T.atom_key(S.atoms[0]): (lambda x, tf=tf: tf.decl(x), lambda x, tf=tf: tf.inv(x))})
  return out


@contract('C02', functions=['vmoe.moe._get_top_experts_per_item_common'])
def common_slot_is_priority_rank():
  S, E, K, gates, bp, cw, ei, bi, s, k, e, s2, k2, top, chosen = _common_contract(True)
  spec = count_spec(bp, S, K, gates, top, s, k, chosen)
  obligation('slot-equals-number-of-higher-priority-assignments', bi.el(s, k, chosen) == spec - 1,
             hints={'cumsum_spec': [(spec, m) for m in perm_maps(S)], 'nowit': True, 'rounds': (2, 3)})


# ------------------------------------------------- contract of common as callee ----
class Common:
  """The verified contract of _get_top_experts_per_item_common, used for its callers."""

  def __init__(self, gates, K):
    self.gates, self.K = gates, K
    S, E = gates.shape
    _, self.top = T.top_k(gates, K)
    c = core.cur()
    flat = [v for a in gates.axes for v in a]
    # ghost slot number, a function of (ambient.., s, k)
    gen = T.bvar(S.atoms[0], 'cs'), T.bvar(K.atoms[0] if hasattr(K, 'atoms') else K, 'ck')
    b = self.top.el(gen[0], gen[1])
    amb = [v for i, v in T.free_consts(b).items() if i in c.ivars and not any(v.eq(g) for g in gen)]
    name = c.fresh('Slot')
    self.decl = z3.Function(name, *([z3.IntSort()] * (len(amb) + 3)))
    self.amb = amb
    tf = T.TheoryFn(self.decl, amb + list(gen), 'slot', bound=())
    tf.top = b
    tf.ranges = (list(gen), [S.atoms[0], K.atoms[0]])
    c.theory[name] = tf
    self.slot = lambda s, k: self.decl(*(amb + [s, k]))

  def result(self):
    gates, K = self.gates, self.K
    S, E = gates.shape
    cw = T.SArr([gates.axes[0], K.atoms], lambda i: gates.fn((i[0], (self.top.fn(i),))), gates.dtype)
    bi = T.SArr([gates.axes[0], K.atoms, gates.axes[1]],
                lambda i: z3.If(self.top.fn(i[:2]) == i[2][0], self.slot(i[0][0], i[1][0]), z3.IntVal(-1)), 'int32')
    return cw, self.top, bi


def _k_slot(self, a, tf, args, grow):
  if self.once('sl', a.get_id()):
    self.emit(a >= 0)


prove.Saturator.k_slot = _k_slot
_old_pairs = prove.Saturator.pairs


def _pairs(self):
  _old_pairs(self)
  sl = [(a, self.c.theory[a.decl().name()]) for a in self.apps if self.c.theory[a.decl().name()].kind == 'slot']
  for (x, tf), (y, _) in self._pairs_same(sl):
    ax = [x.arg(i) for i in range(x.num_args())]; ay = [y.arg(i) for i in range(y.num_args())]
    vs, ats = tf.ranges
    n = len(ax) - 2
    tx, ty = tf.bind(tf.top, ax), tf.bind(tf.top, ay)
    rng = z3.And(T.in_range(ax[n:], ats), T.in_range(ay[n:], ats))
    self.emit(z3.Implies(z3.And(rng, T.eq_digits(ax[:n], ay[:n]), tx == ty, z3.Not(T.eq_digits(ax[n:], ay[n:]))), x != y))


prove.Saturator.pairs = _pairs


class use_contract:
  """Replaces a callee by its contract while running a caller."""

  def __init__(self, module, name, fn):
    self.m, self.n, self.f = module, name, fn

  def __enter__(self):
    if not hasattr(self.m, self.n):
      raise core.Unsupported(f'{self.n} does not exist any more')
    self.old = getattr(self.m, self.n)
    setattr(self.m, self.n, self.f)

  def __exit__(self, *a):
    setattr(self.m, self.n, self.old)


def _via_contract(reg):
  def f(gates, num_selected_experts, batch_priority):
    c = Common(gates, num_selected_experts)
    reg.append(c)
    return c.result()
  return f


@contract('C01', functions=['vmoe.moe._get_top_experts_per_item_einsum_dispatcher'])
def einsum_dispatcher_slots():
  S, E, K, C = dims('S', 'E', 'K', 'C')
  gates = _common_setup(S, E, K)
  reg = []
  with use_contract(moe(), '_get_top_experts_per_item_common', _via_contract(reg)):
    d = moe().get_top_experts_per_item_dispatcher(gates, 'einsum', K, bool(core.choose(2)), capacity=C)
  s, s2, e, c, c2, k = (T.ivar(S.atoms[0], 's'), T.ivar(S.atoms[0], 's2'), T.ivar(E.atoms[0], 'e'),
                        T.ivar(C.atoms[0], 'c'), T.ivar(C.atoms[0], 'c2'), T.ivar(K.atoms[0], 'k'))
  dw, cw = d.dispatch_weights, d.combine_weights
  obligation('shape', z3.And(*[lin(a) == lin(b) for a, b in zip(dw.shape, (S, E, C))]))
  B = lambda t: T.cast_term(t, T.DTYPES['bool'])
  co = reg[0]
  obligation('at-most-one-token-per-slot', z3.Implies(z3.And(B(dw.el(s, e, c)), B(dw.el(s2, e, c))), s == s2))
  obligation('at-most-one-slot-per-token-and-expert', z3.Implies(z3.And(B(dw.el(s, e, c)), B(dw.el(s, e, c2))), c == c2))
  rk = z3.Int(core.cur().fresh('rk'))
  chosen = co.top.el(s, k)
  # dispatched exactly when selected and the slot is within capacity.
  obligation('dispatched-iff-selected-and-within-capacity',
             B(dw.el(s, chosen, c)) == (co.slot(s, k) == c))
  w = core.cur().theory[co.top.el(s, k).decl().name()].rank(s, e)
  obligation('only-selected-experts', z3.Implies(B(dw.el(s, e, c)), z3.And(w >= 0, w < lin(K))))
  obligation('combine-weight-is-gate-or-zero', cw.el(s, e, c) == z3.If(B(dw.el(s, e, c)), gates.el(s, e), z3.RealVal(0)))


@contract('C01', functions=['vmoe.moe._get_top_experts_per_item_expert_indices_dispatcher'])
def indices_dispatcher_slots():
  S, E, K, C = dims('S', 'E', 'K', 'C')
  gates = _common_setup(S, E, K)
  reg = []
  with use_contract(moe(), '_get_top_experts_per_item_common', _via_contract(reg)):
    d = moe().get_top_experts_per_item_dispatcher(gates, 'indices', K, bool(core.choose(2)), capacity=C)
  s, k = T.ivar(S.atoms[0], 's'), T.ivar(K.atoms[0], 'k')
  z0, z1 = z3.IntVal(0), z3.IntVal(1)
  co = reg[0]
  obligation('expert-index', d.indices.el(s, k, z0) == co.top.el(s, k))
  obligation('buffer-index', d.indices.el(s, k, z1) == co.slot(s, k))
  obligation('combine-weight', d.combine_weights.el(s, k) == gates.el(s, co.top.el(s, k)))
  obligation('num-experts', core.same(d.num_experts, E))
  obligation('capacity', core.same(d.capacity, C))


# ------------------------------------------------------------------------ C03 ----
def _both(name, extra_dims):
  G, S, E, K, C = dims('G', 'S', 'E', 'K', 'C')
  item = dims(*extra_dims)
  assume(lin(K) <= lin(E))
  gates = T.fresh_array('gates', (G, S, E))
  bp = bool(core.choose(2))
  ds, regs = [], []
  for n in ('einsum', 'indices'):
    reg = []
    with use_contract(moe(), '_get_top_experts_per_item_common', _shared(reg)):
      ds.append(T.vmap(functools.partial(
          moe().get_top_experts_per_item_dispatcher, name=n, num_selected_experts=K, batch_priority=bp, capacity=C))(gates))
    regs.append(reg[0])
  return G, S, E, K, C, item, gates, ds, regs


_GHOST = {}


def _shared(reg):
  """Both dispatchers see the same common result: slots are a function of gates."""
  def f(gates, num_selected_experts, batch_priority):
    c = Common(gates, num_selected_experts)
    ctx = core.cur()
    prev = getattr(ctx, 'ghost_slot', None)
    if prev is None:
      ctx.ghost_slot = c.decl
    else:
      # same function symbol: deterministic callee, same arguments.
      tf = ctx.theory[c.decl.name()]
      old = ctx.theory[prev.name()]
      c.decl = prev
      c.slot = lambda s, k, c=c: prev(*(c.amb + [s, k]))
    reg.append(c)
    return c.result()
  return f


@contract('C03', functions=['vmoe.moe.EinsumDispatcher.dispatch', 'vmoe.moe.ExpertIndicesDispatcher.dispatch', 'vmoe.moe._scatter_nd'])
def dispatch_agree():
  m = moe()
  G, S, E, K, C, item, gates, (d1, d2), regs = _both('dispatch', ('D',))
  x = T.fresh_array('x', (G, S, *item))
  got = []
  def stop(data, spec):
    got.append(data); return data
  with use_contract(m, '_dispatch', stop):
    d1.dispatch(x); d2.dispatch(x)
  g, e, c = T.ivar(G.atoms[0], 'g'), T.ivar(E.atoms[0], 'e'), T.ivar(C.atoms[0], 'c')
  dd = [T.ivar(i.atoms[0], 'd') for i in item]
  a, b = got[0].el(g, e, c, *dd), got[1].el(g, e, c, *dd)
  co = regs[1]
  c_ = core.cur()
  s0, k0 = T.bvar(S.atoms[0], 's'), T.bvar(K.atoms[0], 'k')
  t0 = T.subst(co.top.el(s0, k0), [(v, g) for v in co.amb])
  tt = c_.theory[t0.decl().name()]
  def rank(s): return tt.rank(*([T.subst(t0.arg(i), [(s0, s)]) for i in range(tt.nrest)] + [e]))
  sa, sb = prove.find_app(a), prove.find_app(b)
  tb = c_.theory[sb.decl().name()]
  if T.akeys(tb.atoms) == T.akeys((S.atoms[0], K.atoms[0])):
    fwd, bwd = (lambda s: (s, rank(s))), (lambda s, k: s)
  else:
    fwd, bwd = (lambda s: (rank(s), s)), (lambda k, s: s)
  assume(prove.lemma_sum_bij(sa, sb, fwd, bwd))
  obligation('dispatched-buffers-equal', a == b, hints={'nowit': True})
  obligation('same-shape', z3.And(*[lin(p) == lin(q) for p, q in zip(got[0].shape, got[1].shape)]))


@contract('C03', functions=['vmoe.moe.EinsumDispatcher.combine', 'vmoe.moe.ExpertIndicesDispatcher.combine'])
def combine_agree():
  m = moe()
  G, S, E, K, C, item, gates, (d1, d2), regs = _both('combine', ('D',))
  y = T.fresh_array('y', (G, E, C, *item))
  def recv(data, num_groups, spec):
    obligation('receive-called-with-number-of-groups', core.same(num_groups, G))
    return data
  with use_contract(m, '_receive', recv):
    r1, r2 = d1.combine(y), d2.combine(y)
  g, s = T.ivar(G.atoms[0], 'g'), T.ivar(S.atoms[0], 's')
  dd = [T.ivar(i.atoms[0], 'd') for i in item]
  a, b = r1.el(g, s, *dd), r2.el(g, s, *dd)
  co = regs[1]
  def top(k): return T.subst(co.top.el(s, k), [(v, g) for v in co.amb])
  def slot(k): return T.subst(co.slot(s, k), [(v, g) for v in co.amb])
  k0 = T.bvar(K.atoms[0], 'k')
  tt = core.cur().theory[top(k0).decl().name()]
  def rank(e): return tt.rank(*([top(k0).arg(i) for i in range(tt.nrest)] + [e]))
  # order of the bound digits of the einsum sum: by atom.
  def key(app): return [T.atom_key(x) for x in core.cur().theory[app.decl().name()].atoms]
  a1, b1 = prove.find_app(a), prove.find_app(b)
  if key(a1) == [T.atom_key(E.atoms[0]), T.atom_key(C.atoms[0])]:
    fwd, bwd = (lambda k: (top(k), slot(k))), (lambda e, c: rank(e))
  else:
    fwd, bwd = (lambda k: (slot(k), top(k))), (lambda c, e: rank(e))
  assume(prove.lemma_sum_bij(b1, a1, fwd, bwd))
  obligation('combined-results-equal', a == b, hints={'nowit': True})


# ------------------------------------------------------------------------ C04 ----
def _groups():
  """All (G, E): G a multiple of E (G = E * H), and G not a multiple of E."""
  E, C = dims('E', 'C')
  if core.choose(2) == 0:
    H = T.new_dim('H')
    G = E * H
  else:
    G = T.new_dim('G')
    r = G % E
    assume(r != 0)
  item = dims(*['D', 'F'][:core.choose(3)])
  return G, E, C, item


def lin_ivars(dim, name):
  """Digit variables along a (possibly composite) dimension."""
  return tuple(T.ivar(a, name) for a in T.dim_atoms(dim))


def split_app(t, decl):
  """Arguments of the (unique) application of decl that t must be."""
  t = z3.simplify(t) if not (z3.is_app(t) and t.decl().eq(decl)) else t
  if not (z3.is_app(t) and t.decl().eq(decl)):
    raise core.Unsupported('element is not a copy of one input element')
  return [t.arg(i) for i in range(t.num_args())]


@contract('C03', functions=['vmoe.moe.Bfloat16Dispatcher.dispatch', 'vmoe.moe.Bfloat16Dispatcher.combine', 'vmoe.moe._cast_to_bfloat16'])
def bfloat16_wrapper():
  """Any data: the wrapped dispatcher works on bfloat16 data if it is floating point, on the same data otherwise; the type comes back."""
  m = moe()
  A, B = dims('A', 'B')
  dt = ['float32', 'float16', 'bfloat16', 'int32', 'bool'][core.choose(5)]
  which = core.choose(2)
  x = T.fresh_array('x', (A, B), dt)
  seen = []
  class Inner:
    def dispatch(self, d): seen.append(('dispatch', d)); return T.SArr(d.axes, d.fn, d.dtype)
    def combine(self, d): seen.append(('combine', d)); return T.SArr(d.axes, d.fn, d.dtype)
  w = m.Bfloat16Dispatcher(Inner())
  r = [w.dispatch, w.combine][which](x)
  if len(seen) != 1: raise core.Unsupported('wrapped in another way')
  i, j = lin_ivars(A, 'i'), lin_ivars(B, 'j')
  obligation('same operation', z3.BoolVal(seen[0][0] == ['dispatch', 'combine'][which]))
  floating = dt in ('float32', 'float16', 'bfloat16')
  obligation('only floating point data loses precision', z3.BoolVal(T.dtype_of(seen[0][1].dtype) is T.dtype_of('bfloat16' if floating else dt)))
  obligation('type kept', z3.BoolVal(T.dtype_of(r.dtype) is T.dtype_of(dt)))
  if not floating: obligation('other data is left alone', r.el(i, j) == x.el(i, j))


@contract('C04', functions=['vmoe.moe._dispatch', 'vmoe.moe._receive'])
def dispatch_layout():
  m = moe()
  G, E, C, item = _groups()
  x = T.fresh_array('x', (G, E, C, *item))
  out = m._dispatch(x, None)
  obligation('shape', z3.And(out.ndim == 2 + len(item), lin(out.shape[0]) == lin(E), lin(out.shape[1]) == lin(G) * lin(C)))
  e, p = lin_ivars(out.shape[0], 'e'), lin_ivars(out.shape[1], 'p')
  p2 = lin_ivars(out.shape[1], 'q')
  dd = [lin_ivars(i, 'd') for i in item]
  ng = len(T.dim_atoms(G))
  a1, a2 = split_app(out.el(e, p, *dd), x.decl), split_app(out.el(e, p2, *dd), x.decl)
  obligation('expert-gets-only-what-is-addressed-to-it', z3.And(
      a1[ng] == e[0], T.in_range(a1[:ng], T.dim_atoms(G)), T.in_range([a1[ng + 1]], C.atoms),
      *[a1[ng + 2 + i] == d[0] for i, d in enumerate(dd)]))
  obligation('each-once', z3.Implies(T.eq_digits(a1, a2), T.eq_digits(p, p2)))
  back = m._receive(out, G, None)
  g, ee, c = lin_ivars(G, 'g'), lin_ivars(E, 'e'), lin_ivars(C, 'c')
  conv = lambda d, src, dst: T.conv_digits(d, src, dst)
  obligation('receive-undoes-dispatch', back.el(
      conv(g, T.dim_atoms(G), back.axes[0]), ee, c, *dd) == x.el(g, ee, c, *dd))


@contract('C04', functions=['vmoe.moe._receive'])
def receive_layout():
  m = moe()
  G, E, C, item = _groups()
  # The second axis is flat; its digits are named in the order convenient for the code.
  flat = T.mkdim(tuple(reversed(T.dim_atoms(G))) + C.atoms)
  y = T.fresh_array('y', (E, flat, *item))
  r = m._receive(y, G, None)
  obligation('shape', z3.And(r.ndim == 3 + len(item), *[lin(a) == lin(b) for a, b in zip(r.shape, (G, E, C, *item))]))
  g, e, c = lin_ivars(r.shape[0], 'g'), lin_ivars(E, 'e'), lin_ivars(C, 'c')
  g2, c2 = lin_ivars(r.shape[0], 'g2'), lin_ivars(C, 'c2')
  dd = [lin_ivars(i, 'd') for i in item]
  a1, a2 = split_app(r.el(g, e, c, *dd), y.decl), split_app(r.el(g2, e, c2, *dd), y.decl)
  obligation('value-of-the-same-expert', z3.And(a1[0] == e[0], *[a1[len(a1) - len(dd) + i] == d[0] for i, d in enumerate(dd)]))
  obligation('each-once', z3.Implies(T.eq_digits(a1, a2), z3.And(T.eq_digits(g, g2), T.eq_digits(c, c2))))


@contract('C04', functions=['vmoe.moe.DenseEinsumDispatcher.dispatch', 'vmoe.moe.DenseEinsumDispatcher.combine'])
def dense_identity_experts():
  m = moe()
  G, S, E = dims('G', 'S', 'E')
  item = dims(*['D', 'F'][:core.choose(3)])
  gates = T.fresh_array('gates', (G, S, E))
  x = T.fresh_array('x', (G, S, *item))
  d = m.get_dense_einsum_dispatcher(gates)
  with use_contract(m, '_dispatch', lambda data, spec: data), use_contract(m, '_receive', lambda data, n, spec: data):
    buf = d.dispatch(x)
    g, s, e = lin_ivars(G, 'g'), lin_ivars(S, 's'), lin_ivars(E, 'e')
    dd = [lin_ivars(i, 'd') for i in item]
    obligation('every-expert-gets-every-item', buf.el(g, e, s, *dd) == x.el(g, s, *dd))
    y = T.fresh_array('y', (G, E, S, *item))
    r = d.combine(y)
  b = T.bvar(E.atoms[0], 'b')
  spec = T.make_sum([b], [E.atoms[0]], gates.el(g, s, b) * y.el(g, b, s, *dd))
  obligation('combine-is-weighted-sum-over-experts', r.el(g, s, *dd) == spec)


@contract('C04', functions=['vmoe.moe.EinsumDispatcher.dispatch', 'vmoe.moe.EinsumDispatcher.combine'])
def einsum_weighted_sums():
  """Dispatch and combine are the weighted sums within the item's own group."""
  m = moe()
  G, S, E, C = dims('G', 'S', 'E', 'C')
  item = dims(*['D', 'F'][:core.choose(3)])
  cw = T.fresh_array('cw', (G, S, E, C))
  explicit = core.choose(2)
  dw = T.fresh_array('dw', (G, S, E, C), 'bool') if explicit else None
  d = m.EinsumDispatcher(combine_weights=cw, dispatch_weights=dw)
  x = T.fresh_array('x', (G, S, *item)); y = T.fresh_array('y', (G, E, C, *item))
  with use_contract(m, '_dispatch', lambda data, spec: data), use_contract(m, '_receive', lambda data, n, spec: data):
    buf, r = d.dispatch(x), d.combine(y)
  g, s, e, c = lin_ivars(G, 'g'), lin_ivars(S, 's'), lin_ivars(E, 'e'), lin_ivars(C, 'c')
  dd = [lin_ivars(i, 'd') for i in item]
  sb = T.bvar(S.atoms[0], 'sb')
  on = dw.el(g, sb, e, c) if explicit else cw.el(g, sb, e, c) > 0
  obligation('buffer-slot-holds-the-dispatched-items', buf.el(g, e, c, *dd) == T.make_sum(
      [sb], S.atoms, z3.If(on, x.el(g, sb, *dd), z3.RealVal(0))))
  eb, cb = T.bvar(E.atoms[0], 'eb'), T.bvar(C.atoms[0], 'cb')
  obligation('combine-is-the-weighted-sum', r.el(g, s, *dd) == T.make_sum(
      [eb, cb], [E.atoms[0], C.atoms[0]], cw.el(g, s, eb, cb) * y.el(g, eb, cb, *dd)))


@contract('C04', functions=['vmoe.moe.EinsumDispatcher.dispatch', 'vmoe.moe.EinsumDispatcher.combine'])
def identity_experts():
  """Lemma over the contracts: slots unique and weights zero off-dispatch => out = sum of weights * x."""
  m = moe()
  G, S, E, K, C = dims('G', 'S', 'E', 'K', 'C')
  assume(lin(K) <= lin(E))
  gates = T.fresh_array('gates', (G, S, E))
  x = T.fresh_array('x', (G, S))
  with use_contract(m, '_get_top_experts_per_item_common', _shared([])):
    d = T.vmap(functools.partial(m.get_top_experts_per_item_dispatcher, name='einsum',
                                 num_selected_experts=K, batch_priority=bool(core.choose(2)), capacity=C))(gates)
  with use_contract(m, '_dispatch', lambda data, spec: data), use_contract(m, '_receive', lambda data, n, spec: data):
    out = d.combine(d.dispatch(x))
  g, s = lin_ivars(G, 'g'), lin_ivars(S, 's')
  eb, cb = T.bvar(E.atoms[0], 'eb'), T.bvar(C.atoms[0], 'cb')
  spec = T.make_sum([eb, cb], [E.atoms[0], C.atoms[0]], d.combine_weights.el(g, s, eb, cb) * x.el(g, s))
  obligation('identity-experts-return-weighted-token', out.el(g, s) == spec, hints={'nowit': True, 'rounds': (3, 4)})


# ------------------------------------------------------------------------ C05 ----
def _arbitrary_iteration(rng):
  i = fresh_int('i', rng.lo, rng.hi)
  return iter([i])


@contract('C05', functions=['vmoe.moe._get_top_items_per_expert_einsum_dispatcher', 'vmoe.moe.get_top_items_per_expert_dispatcher'])
def expert_choice():
  S, E, C = dims('S', 'E', 'C')
  assume(lin(C) <= lin(S))
  gates = T.fresh_array('gates', (S, E))
  core.cur().range_handler = _arbitrary_iteration
  core.assumption('metrics loop over thresholds (expert choice): one arbitrary iteration stands for all; it only adds further ratio metrics')
  d, metrics = moe().get_top_items_per_expert_dispatcher(gates, 'einsum', capacity=C)
  dw, cw = d.dispatch_weights, d.combine_weights
  s, s2, e, c, c2 = (T.ivar(S.atoms[0], 's'), T.ivar(S.atoms[0], 's2'), T.ivar(E.atoms[0], 'e'), T.ivar(C.atoms[0], 'c'), T.ivar(C.atoms[0], 'c2'))
  B = lambda t: T.cast_term(t, T.DTYPES['bool'])
  _, top = T.top_k(T.transpose(gates), C)
  obligation('slot-holds-exactly-one-token', z3.And(B(dw.el(top.el(e, c), e, c)), z3.Implies(
      z3.And(B(dw.el(s, e, c)), B(dw.el(s2, e, c))), s == s2)))
  obligation('tokens-of-an-expert-distinct', z3.Implies(z3.And(B(dw.el(s, e, c)), B(dw.el(s, e, c2))), c == c2))
  sel = z3.Function
  rk = core.cur().theory[top.el(e, c).decl().name()].rank(e, s2)
  obligation('selected-tokens-have-highest-scores', z3.Implies(
      z3.And(B(dw.el(s, e, c)), z3.Not(z3.And(rk >= 0, rk < lin(C)))), gates.el(s2, e) <= gates.el(s, e)))
  obligation('unselected-tokens-are-not-dispatched', z3.Implies(z3.Not(z3.And(rk >= 0, rk < lin(C))), z3.Not(B(dw.el(s2, e, c)))))
  obligation('combine-weight-is-gate-or-zero', cw.el(s, e, c) == z3.If(B(dw.el(s, e, c)), gates.el(s, e), z3.RealVal(0)))
  # metrics.
  eb, cb = T.bvar(E.atoms[0], 'eb'), T.bvar(C.atoms[0], 'cb')
  def n_exp(s): return T.make_sum([eb, cb], [E.atoms[0], C.atoms[0]], z3.If(B(dw.el(s, eb, cb)), z3.IntVal(1), z3.IntVal(0)))
  mx, mn = term(metrics['num_experts_per_item_max']), term(metrics['num_experts_per_item_min'])
  obligation('metric-max-experts-per-token-bounds-all', mx >= n_exp(s), hints={'nowit': True})
  obligation('metric-min-experts-per-token-bounds-all', mn <= n_exp(s), hints={'nowit': True})
  gmx, gmn = term(metrics['max_selected_gate']), term(metrics['min_selected_gate'])
  obligation('metric-selected-gates-bounds', z3.Implies(B(dw.el(s, e, c)), z3.And(gmx >= gates.el(s, e), gmn <= gates.el(s, e))))
