"""Discharging obligations: quantifier-free lemma instantiation + z3 (cvc5 cross-check)."""
import itertools
import time

import z3

from vc import core, tensor as T
from vc.tensor import atom_key, atom_term, in_range, eq_digits, lex_lt, linear, free_consts, subst

MAXC = 14


class Result:

  def __init__(self, name, status, seconds, model=None, lemmas=0, detail=''):
    self.name, self.status, self.seconds = name, status, seconds
    self.model, self.lemmas, self.detail = model, lemmas, detail
    self.smt2 = None

  def __repr__(self):
    return f'{self.name}: {self.status} ({self.seconds:.2f}s, {self.lemmas} lemmas) {self.detail}'


def apps_in(exprs, theory, placeholders, seen):
  out = []
  stack = list(exprs)
  hasp = {}

  def has_ph(e):
    i = e.get_id()
    r = hasp.get(i)
    if r is None:
      if z3.is_const(e):
        r = i in placeholders
      else:
        r = any(has_ph(c) for c in e.children())
      hasp[i] = r
    return r

  visited = set()
  while stack:
    e = stack.pop()
    i = e.get_id()
    if i in visited: continue
    visited.add(i)
    if z3.is_quantifier(e): continue
    if z3.is_app(e):
      if e.num_args() >= 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n in theory and i not in seen and not has_ph(e):
          seen.add(i)
          out.append(e)
      stack.extend(e.children())
  return out


class Saturator:

  def __init__(self, ctx, exprs, hints):
    self.c = ctx
    self.hints = hints
    self.cands = {k: list(v) for k, v in ctx.cands.items()}
    self.seen = set()
    self.apps = []
    self.lemmas = []
    self.done = set()
    self.exprs = list(exprs)
    self.keep = []

  def emit(self, *fs):
    for f in fs:
      if z3.is_true(f): continue
      self.lemmas.append(f)
      self.new.append(f)

  def cand(self, atom, t):
    lst = self.cands.setdefault(atom_key(atom), [])
    if len(lst) < MAXC and not any(t.eq(x) for x in lst):
      self.keep.append(t)
      lst.append(t)

  def tuples(self, atoms, cap=64):
    pools = [self.cands.get(atom_key(a), []) if not isinstance(a, int) or a > 4 else
             [z3.IntVal(j) for j in range(a)] for a in atoms]
    return list(itertools.islice(itertools.product(*pools), cap))

  def run(self, rounds=3, max_lemmas=6000):
    frontier = list(self.exprs)
    for r in range(rounds):
      self.new = []
      apps = apps_in(frontier, self.c.theory, self.c.placeholders, self.seen)
      self.keep += apps
      self.apps += apps
      grow = r < rounds - 1
      for a in self.apps:
        tf = self.c.theory[a.decl().name()]
        getattr(self, 'k_' + tf.kind)(a, tf, [a.arg(i) for i in range(a.num_args())], grow)
        if len(self.lemmas) > max_lemmas: break
      self.pairs()
      if not self.new: break
      frontier = self.new
      if len(self.lemmas) > max_lemmas: break
    return self.lemmas

  def once(self, *key):
    if key in self.done: return False
    self.done.add(key)
    return True

  # -- per kind.
  def k_topk(self, a, tf, args, grow):
    rest, kd = args[:tf.nrest], args[tf.nrest:]
    klin = linear_nc(kd, tf.katoms)
    ok = in_range(kd, tf.katoms)
    if self.once('tk', a.get_id()):
      self.emit(z3.Implies(ok, z3.And(a >= 0, a < atom_term(tf.eatom))))
      self.emit(z3.Implies(ok, tf.rank(*(rest + [a])) == klin))
      if grow: self.cand(tf.eatom, a)
    # candidates: ranked or not selected.
    for e in self.cands.get(atom_key(tf.eatom), []):
      if self.once('tkc', a.get_id(), e.get_id()):
        be = tf.bind(subst(tf.body, [(tf.ev, e)]), args)
        ba = tf.bind(subst(tf.body, [(tf.ev, a)]), args)
        rk = tf.rank(*(rest + [e]))
        K = T.dim_term(tf.kdim)
        ine = z3.And(e >= 0, e < atom_term(tf.eatom))
        sel = z3.And(rk >= 0, rk < K)
        self.emit(z3.Implies(z3.And(ine, ok, z3.Not(sel)), z3.And(rk == K, be <= ba, z3.Implies(be == ba, e > a))))
        self.emit(z3.Implies(z3.And(ine, ok, sel), z3.And(
            z3.Implies(rk == klin, e == a), z3.Implies(rk < klin, z3.And(be >= ba, z3.Implies(be == ba, e < a))),
            z3.Implies(rk > klin, z3.And(be <= ba, z3.Implies(be == ba, e > a))))))
        if len(tf.katoms) == 1:
          self.emit(z3.Implies(z3.And(ine, sel), tf.decl(*(rest + [rk])) == e))

  def k_topkrank(self, a, tf, args, grow):
    own = tf.owner
    rest, e = args[:-1], args[-1]
    K = T.dim_term(own.kdim)
    ine = z3.And(e >= 0, e < atom_term(own.eatom))
    if self.once('tkr', a.get_id()):
      self.emit(z3.Implies(ine, z3.And(a >= 0, a <= K)))
      if len(own.katoms) == 1:
        self.emit(z3.Implies(z3.And(ine, a < K), own.decl(*(rest + [a])) == e))
        if grow and not self._nested(e, own): self.cand(own.katoms[0], a)

  def _nested(self, e, own):
    return z3.is_app(e) and e.decl().eq(own.decl)

  def k_cumsum(self, a, tf, args, grow):
    if self.once('cs', a.get_id()):
      b = tf.bind(tf.body, args)
      lo, hi = tf.pos
      ok = in_range(args[lo:hi], tf.atoms)
      if tf.nonneg:
        self.emit(z3.Implies(ok, z3.And(a >= b, b >= 0)))
      first = z3.And(*[d == 0 for d in args[lo:hi]]) if hi > lo else z3.BoolVal(True)
      self.emit(z3.Implies(first, a == b))

    spec = self.hints.get('cumsum_spec')
    if spec is not None and self.once('css', a.get_id()):
      # cumsum(p) is the sum of the entries up to p; compare it with the spec sum
      # by re-indexing (bijection given per axis atom).
      lo, hi = tf.pos
      old = core._CUR[0]; core._CUR[0] = self.c
      try:
        eqn, s = lemma_cumsum_is_sum(a)
        self.emit(eqn)
        for spec_sum, maps in spec:
          ts = self.c.theory[spec_sum.decl().name()]
          ck, sk = T.akeys(tf.atoms), T.akeys(ts.atoms)
          if sorted(ck) != sorted(sk) or len(set(ck)) != len(ck): continue
          def fwd(*d):
            m = dict(zip(ck, d))
            return [maps.get(k, ident)[0](m[k]) for k in sk]
          def bwd(*d):
            m = dict(zip(sk, d))
            return [maps.get(k, ident)[1](m[k]) for k in ck]
          ident = (lambda x: x, lambda x: x)
          self.emit(lemma_sum_bij(s, spec_sum, fwd, bwd))
      finally:
        core._CUR[0] = old

  def k_max(self, a, tf, args, grow):
    if self.once('mx', a.get_id()):
      w = [f(*args) for f in tf.wit]
      bw = self.inst(tf, tf.body, args, w)
      self.emit(in_range(w, tf.atoms), a == bw)
      if grow:
        for x, at in zip(w, tf.atoms): self.cand(at, x)
    for tup in self.tuples(tf.atoms):
      if self.once('mxc', a.get_id(), tuple(x.get_id() for x in tup)):
        b = self.inst(tf, tf.body, args, tup)
        self.emit(z3.Implies(in_range(tup, tf.atoms), a >= b if tf.is_max else a <= b))

  def inst(self, tf, e, args, bound):
    return subst(e, list(zip(tf.params, args)) + list(zip(tf.bound, bound)))

  def wfun(self, tf, label, n, args, extra=()):
    """Skolem witnesses."""
    out = []
    for i in range(n):
      f = z3.Function(f'{tf.decl.name()}_{label}{i}', *([x.sort() for x in args] + [x.sort() for x in extra] + [z3.IntSort()]))
      out.append(f(*(list(args) + list(extra))))
    return out

  def k_sum(self, a, tf, args, grow):
    n = len(tf.atoms)
    zero = core._zero(a)
    if self.once('sm', a.get_id()):
      w = self.wfun(tf, 'nz', n, args)
      bw = self.inst(tf, tf.body, args, w)
      self.emit(z3.Or(a == 0, z3.And(in_range(w, tf.atoms), bw != 0)))
      if grow and 'nowit' not in self.hints:
        for x, at in zip(w, tf.atoms): self.cand(at, x)
      wn = self.wfun(tf, 'ng', n, args)
      bn = self.inst(tf, tf.body, args, wn)
      self.emit(z3.Or(a >= 0, z3.And(in_range(wn, tf.atoms), bn < 0)))
      # softmax normalisation.
      b = tf.body
      if z3.is_app(b) and b.decl().name() in self.c.theory and self.c.theory[b.decl().name()].kind == 'softmax':
        sf = self.c.theory[b.decl().name()]
        red = [b.arg(i) for i in sf.redpos]
        others = [b.arg(i) for i in range(b.num_args()) if i not in sf.redpos]
        bids = {x.get_id() for x in tf.bound}
        if (sorted(x.get_id() for x in red) == sorted(bids) and len(red) == len(tf.bound) and
            not any(bids & set(free_consts(o)) for o in others)):
          self.emit(a == 1)
    for tup in self.tuples(tf.atoms, 40):
      if self.once('smc', a.get_id(), tuple(x.get_id() for x in tup)):
        u = list(tup)
        bu = self.inst(tf, tf.body, args, u)
        ok = in_range(u, tf.atoms)
        # either another index has a non-zero body, or the sum is this single term.
        w = self.wfun(tf, 'ot', n, args, u)
        bw = self.inst(tf, tf.body, args, w)
        self.emit(z3.Implies(ok, z3.Or(a == bu, z3.And(in_range(w, tf.atoms), z3.Not(eq_digits(w, u)), bw != 0))))
        wn = self.wfun(tf, 'ng', n, args)
        bn = self.inst(tf, tf.body, args, wn)
        self.emit(z3.Implies(ok, z3.Or(a >= bu, z3.And(in_range(wn, tf.atoms), bn < 0))))

  def k_perm(self, a, tf, args, grow):
    x = args[-1]
    at = atom_term(tf.atom)
    if self.once('pm', a.get_id()):
      ok = z3.And(x >= 0, x < at)
      back = tf.inv(*(args[:-1] + [a]))
      self.emit(z3.Implies(ok, z3.And(a >= 0, a < at, back == x)))
      if grow: self.cand(tf.atom, a)

  def k_softmax(self, a, tf, args, grow):
    if self.once('sf', a.get_id()):
      self.emit(a > 0, a <= 1)

  def k_scatterset(self, a, tf, args, grow):
    if self.once('ss', a.get_id()):
      w = self.wfun(tf, 'w', len(tf.atoms), args)
      hw = self.inst(tf, tf.hit, args, w)
      vw = self.inst(tf, tf.val, args, w)
      b = self.inst(tf, tf.base, args, [])
      nohit = z3.Function(f'{tf.decl.name()}_nh', *([x.sort() for x in args] + [z3.BoolSort()]))(*args)
      self.emit(z3.If(nohit, a == b, z3.And(in_range(w, tf.atoms), hw, a == vw)))
      self._nh = getattr(self, '_nh', {})
      self._nh[a.get_id()] = nohit
      if grow:
        for x, at in zip(w, tf.atoms): self.cand(at, x)
    for tup in self.tuples(tf.atoms):
      if self.once('ssc', a.get_id(), tuple(x.get_id() for x in tup)):
        h = self.inst(tf, tf.hit, args, tup)
        self.emit(z3.Implies(z3.And(self._nh[a.get_id()], in_range(tup, tf.atoms)), z3.Not(h)))

  # -- pairs.
  def pairs(self):
    by = {}
    for a in self.apps:
      tf = self.c.theory[a.decl().name()]
      by.setdefault(tf.kind, []).append((a, tf))
    for a, b in self._pairs_same(by.get('topk', [])):
      (x, tf), (y, _) = a, b
      ax = [x.arg(i) for i in range(x.num_args())]; ay = [y.arg(i) for i in range(y.num_args())]
      same = eq_digits(ax[:tf.nrest], ay[:tf.nrest])
      kx, ky = ax[tf.nrest:], ay[tf.nrest:]
      bx = tf.bind(subst(tf.body, [(tf.ev, x)]), ax)
      by_ = tf.bind(subst(tf.body, [(tf.ev, y)]), ay)
      rng = z3.And(in_range(kx, tf.katoms), in_range(ky, tf.katoms))
      self.emit(z3.Implies(z3.And(same, rng, lex_lt(kx, ky)), z3.And(x != y, bx >= by_, z3.Implies(bx == by_, x < y))))
      self.emit(z3.Implies(z3.And(same, rng, lex_lt(ky, kx)), z3.And(x != y, bx <= by_, z3.Implies(bx == by_, x > y))))
    for a, b in self._pairs_same(by.get('cumsum', [])):
      (x, tf), (y, _) = a, b
      ax = [x.arg(i) for i in range(x.num_args())]; ay = [y.arg(i) for i in range(y.num_args())]
      lo, hi = tf.pos
      rest = eq_digits(ax[:lo] + ax[hi:], ay[:lo] + ay[hi:])
      px, py = ax[lo:hi], ay[lo:hi]
      rng = z3.And(in_range(px, tf.atoms), in_range(py, tf.atoms))
      if tf.nonneg:
        bx, by_ = tf.bind(tf.body, ax), tf.bind(tf.body, ay)
        self.emit(z3.Implies(z3.And(rest, rng, lex_lt(px, py)), y >= x + by_))
        self.emit(z3.Implies(z3.And(rest, rng, lex_lt(py, px)), x >= y + bx))
    for a, b in self._pairs_same(by.get('perm', [])):
      (x, tf), (y, _) = a, b
      if tf.body is None: continue
      ax = [x.arg(i) for i in range(x.num_args())]; ay = [y.arg(i) for i in range(y.num_args())]
      same = eq_digits(ax[:-1], ay[:-1])
      sv = tf.params[-1]
      def val(args, t): return subst(tf.body, list(zip(tf.params[:-1], args[:-1])) + [(sv, t)])
      bx, by_ = val(ax, x), val(ay, y)
      if tf.descending: bx, by_ = -bx, -by_
      jx, jy = ax[-1], ay[-1]
      at = atom_term(tf.atom)
      rng = z3.And(jx >= 0, jx < at, jy >= 0, jy < at)
      self.emit(z3.Implies(z3.And(same, rng, jx < jy), z3.And(bx <= by_, z3.Implies(bx == by_, x < y), x != y)))
      self.emit(z3.Implies(z3.And(same, rng, jy < jx), z3.And(by_ <= bx, z3.Implies(bx == by_, y < x), x != y)))
    # sums over the same atoms: equal bodies give equal sums.
    sums = by.get('sum', [])
    if len(sums) <= 24:
      for (x, tx), (y, ty) in itertools.combinations(sums, 2):
        if T.akeys(tx.atoms) != T.akeys(ty.atoms): continue
        if not self.once('smp', x.get_id(), y.get_id()): continue
        ax = [x.arg(i) for i in range(x.num_args())]; ay = [y.arg(i) for i in range(y.num_args())]
        n = len(tx.atoms)
        extra = ax + ay
        nm = f'{tx.decl.name()}_{ty.decl.name()}_df'
        w = [z3.Function(f'{nm}{i}', *([e.sort() for e in extra] + [z3.IntSort()]))(*extra) if extra else z3.Int(f'{nm}{i}') for i in range(n)]
        bx, by_ = self.inst(tx, tx.body, ax, w), self.inst(ty, ty.body, ay, w)
        if x.sort() != y.sort(): x, y, bx, by_ = core.to_real(x), core.to_real(y), core.to_real(bx), core.to_real(by_)
        self.emit(z3.Or(x == y, z3.And(in_range(w, tx.atoms), bx != by_)))
    if self.hints.get('linear_sums'):
     groups = {}
     for x, tx in sums: groups.setdefault(tuple(x.arg(i).get_id() for i in range(x.num_args())), []).append((x, tx))
     for sums in [g for g in groups.values() if 3 <= len(g) <= 8]:
      # x = y + z unless the bodies differ somewhere.
      for (x, tx), (y, ty) in itertools.combinations(sums, 2):
        for z, tz in sums:
          if z.eq(x) or z.eq(y) or not (T.akeys(tx.atoms) == T.akeys(ty.atoms) == T.akeys(tz.atoms)): continue
          if not self.once('sml', x.get_id(), y.get_id(), z.get_id()): continue
          parts = [(t, tf, [t.arg(i) for i in range(t.num_args())]) for t, tf in ((x, tx), (y, ty), (z, tz))]
          extra = [e for _, _, a in parts for e in a]
          nm = '_'.join(tf.decl.name() for _, tf, _ in parts) + '_ln'
          w = [z3.Function(f'{nm}{i}', *([e.sort() for e in extra] + [z3.IntSort()]))(*extra) if extra else z3.Int(f'{nm}{i}') for i in range(len(tx.atoms))]
          v = [core.to_real(t) for t, _, _ in parts]
          b = [core.to_real(core.num(self.inst(tf, tf.body, a, w))) for _, tf, a in parts]
          self.emit(z3.Or(v[2] == v[0] + v[1], z3.And(in_range(w, tx.atoms), b[2] != b[0] + b[1])))

  def _pairs_same(self, lst):
    if len(lst) > 60: lst = lst[:60]
    for a, b in itertools.combinations(lst, 2):
      if a[0].decl().eq(b[0].decl()) and self.once('pr', a[0].get_id(), b[0].get_id()):
        yield a, b


def linear_nc(digits, atoms):
  t = None
  for d, a in zip(digits, atoms):
    t = d if t is None else t * atom_term(a) + d
  return z3.IntVal(0) if t is None else t


def find_app(t, kind='sum'):
  """The unique outermost application of a theory function of this kind in t."""
  c = core.cur()
  found, stack, seen = [], [t], set()
  while stack:
    e = stack.pop()
    if e.get_id() in seen: continue
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().name() in c.theory and c.theory[e.decl().name()].kind == kind:
      found.append(e); continue
    stack.extend(e.children())
  if len(found) != 1:
    raise core.Unsupported(f'{len(found)} {kind} terms in the result')
  return found[0]


def lemma_sum_bij(sx, sy, fwd, bwd):
  """Sum over x equals sum over y when fwd/bwd are inverse on the supports.

  sx, sy: Sum applications. Returns the lemma instance (a disjunction with
  Skolem witnesses for the failing side conditions), to be used with assume.
  """
  c = core.cur()
  tx, ty = c.theory[sx.decl().name()], c.theory[sy.decl().name()]
  ax = [sx.arg(i) for i in range(sx.num_args())]; ay = [sy.arg(i) for i in range(sy.num_args())]
  def inst(tf, args, bound): return subst(tf.body, list(zip(tf.params, args)) + list(zip(tf.bound, bound)))
  wx = [z3.Int(c.fresh('bx')) for _ in tx.atoms]
  wy = [z3.Int(c.fresh('by')) for _ in ty.atoms]
  fx = fwd(*wx); by = bwd(*wy)
  fx = list(fx) if isinstance(fx, (tuple, list)) else [fx]
  by = list(by) if isinstance(by, (tuple, list)) else [by]
  bfx = bwd(*fx); fby = fwd(*by)
  bfx = list(bfx) if isinstance(bfx, (tuple, list)) else [bfx]
  fby = list(fby) if isinstance(fby, (tuple, list)) else [fby]
  bad_x = z3.And(in_range(wx, tx.atoms), inst(tx, ax, wx) != 0,
                 z3.Not(z3.And(in_range(fx, ty.atoms), eq_digits(bfx, wx), inst(tx, ax, wx) == inst(ty, ay, fx))))
  bad_y = z3.And(in_range(wy, ty.atoms), inst(ty, ay, wy) != 0,
                 z3.Not(z3.And(in_range(by, tx.atoms), eq_digits(fby, wy), inst(tx, ax, by) == inst(ty, ay, wy))))
  return z3.Or(sx == sy, bad_x, bad_y)


def lemma_cumsum_is_sum(app):
  """cumsum(p) = sum over q of (x(q) if q <= p else 0)."""
  c = core.cur()
  tf = c.theory[app.decl().name()]
  args = [app.arg(i) for i in range(app.num_args())]
  lo, hi = tf.pos
  bv = [T.bvar(a, 'cq') for a in tf.atoms]
  p = args[lo:hi]
  args2 = args[:lo] + bv + args[hi:]
  body = tf.bind(tf.body, args2)
  le = z3.Or(lex_lt(bv, p), eq_digits(bv, p))
  s = T.make_sum(bv, list(tf.atoms), z3.If(le, body, core._zero(body)))
  return app == s, s


def discharge(ctx, name, goal, hyps, hints=None, timeout=20.0, want_smt2=False):
  hints = hints or {}
  t0 = time.time()
  neg = z3.simplify(z3.Not(goal)) if False else z3.Not(goal)
  base = list(hyps) + [neg]
  if z3.is_true(z3.simplify(goal)):
    return Result(name, 'proved', time.time() - t0, detail='trivial')
  if z3.is_false(z3.simplify(goal)): timeout, hints = min(timeout, 4.0), dict(hints, rounds=(2,))    # only the path could be impossible
  if not ctx.theory or hints.get('staged'):
    r = staged(ctx, name, goal, list(hyps), timeout, want_smt2)
    if r is not None:
      r.seconds = time.time() - t0
      return r
  sat = Saturator(ctx, base, hints)
  status, model, nl = 'unknown', None, 0
  rounds = hints.get('rounds', (2, 3, 4))
  for i, r in enumerate(rounds):
    sat = Saturator(ctx, base, hints)
    lem = sat.run(r, hints.get('max_lemmas', 6000))
    nl = len(lem)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    if hints.get('opaque_div'): s.add(*opaque_div(base + lem))   # weaker facts: may only prove
    else:
      s.add(*base)
      s.add(*lem)
    t = time.time()
    res = s.check()
    if (hints.get('opaque_div') or hints.get('abstract') or any(f.kind == 'scatterset' for f in ctx.theory.values())) and res == z3.sat: res = z3.unknown   # facts known to be incomplete
    core.STATS['solver_s'] += time.time() - t
    core.STATS['queries'] += 1
    if res == z3.unsat:
      out = Result(name, 'proved', time.time() - t0, None, nl)
      if hints.get('check_vacuity') and lem:
        # The instantiated lemmas must not contradict the hypotheses by themselves.
        v = z3.Solver(); v.set('timeout', 1500); v.add(*hyps); v.add(*lem)
        if v.check() == z3.unsat:
          v2 = z3.Solver(); v2.set('timeout', 1500); v2.add(*hyps)
          if v2.check() != z3.unsat:
            out.status = 'vacuous'
            return out
          out.detail = 'infeasible path'
      if want_smt2: out.smt2 = s.to_smt2()
      return out
    if res == z3.sat:
      status, model = 'refuted', s.model()
      if not sat.apps: break
    else:
      status = 'unknown'
    if len(sat.apps) == 0: break
  out = Result(name, status, time.time() - t0, None, nl)
  if model is not None:
    out.model = model_str(model)
  elif status == 'unknown' and not (hints.get('opaque_div') or hints.get('abstract')) and not any(core.multiplies(f) for f in base):
    m = saturated(base + lem)
    if m is not None:
      out.status, out.model = 'refuted', m
      out.detail = 'every instance of the quantified facts that the goal triggers leaves it open'
  return out


def saturated(facts, seconds=8.0):
  """A candidate counterexample: the ground facts together with all instances their terms trigger are satisfiable."""
  s = z3.Solver()
  s.set('auto_config', False)
  s.set('smt.mbqi', False)
  s.set('timeout', int(seconds * 1000))
  s.add(*facts)
  if s.check() != z3.unknown or 'incomplete' not in s.reason_unknown(): return None
  try: return model_str(s.model())
  except z3.Z3Exception: return {}


def opaque_div(fs):
  """Real division as an uninterpreted function (a sound weakening of the facts)."""
  D = z3.Function('div!', z3.RealSort(), z3.RealSort(), z3.RealSort())
  memo = {}
  def go(e):
    k = e.get_id()
    if k in memo: return memo[k][0]
    if not z3.is_app(e) or e.num_args() == 0: r = e
    else:
      ch = [go(x) for x in e.children()]
      if e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(z3.simplify(ch[1])): r = D(*ch)
      elif any(a.get_id() != b.get_id() for a, b in zip(ch, e.children())): r = e.decl()(*ch)
      else: r = e
    memo[k] = (r, e)
    return r
  return [go(f) for f in fs]


def _solve(hyps, goal, timeout, want):
  s = z3.Solver()
  s.set('timeout', int(timeout * 1000))
  s.add(*hyps)
  s.add(z3.Not(goal))
  t = time.time()
  r = s.check()
  core.STATS['solver_s'] += time.time() - t
  core.STATS['queries'] += 1
  return r, (s.to_smt2() if want and r == z3.unsat else None)


def relevant(hyps, goal, depth):
  """Hypotheses connected to the goal through shared constants (dropping some is sound)."""
  ids = set(free_consts(goal))
  fc = [set(free_consts(h)) for h in hyps]
  keep = set()
  for _ in range(depth):
    new = {i for i, f in enumerate(fc) if i not in keep and f & ids and len(f) <= 8}
    if not new: break
    keep |= new
    for i in new: ids |= fc[i]
  return [h for i, h in enumerate(hyps) if i in keep]


def staged(ctx, name, goal, hyps, timeout, want):
  """Proof attempts that may only succeed (None: go on with the full query)."""
  parts = list(goal.children()) if z3.is_and(goal) else [goal]
  r, smt = _solve(hyps, goal, 2.0, want)
  if r == z3.sat: return None
  smts = [smt]
  if r != z3.unsat:
    smts = []
    for p in parts:
      for hs, tm in ((relevant(hyps, p, 1), 2.0), (relevant(hyps, p, 2), 2.0),
                     ([h for h in hyps if not core.nonlinear(h)], 2.0), (hyps, timeout)):
        r, smt = _solve(hs, p, tm, want)
        if r == z3.unsat: break
      if r != z3.unsat: return None
      smts.append(smt)
  out = Result(name, 'proved', 0, None, 0)
  out.smt2 = smts[0] if len(smts) == 1 else None
  return out


def model_str(m):
  out = {}
  for d in m.decls():
    if d.arity() == 0:
      v = m[d]
      out[d.name()] = str(v)
  return out


def cover(ctx, hyps, timeout=3.0):
  """Vacuity guard: the hypotheses are satisfiable (together with their lemmas)."""
  s = z3.Solver()
  s.set('timeout', int(timeout * 1000))
  s.add(*hyps)
  return str(s.check())
