"""C18, C19, C27, C28: training step, mixup, resuming, random keys (vmoe/train/trainer.py, vmoe/utils.py)."""
import types as _types
import z3
from vc import core, loader, loops, prove
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, fresh_obj, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from vc.seqs import SSeq, SDict, KSpace, KDict

MOD = 'vmoe.train.trainer'
UTILS = 'vmoe.utils'
Key = core.sort('Key')


def split_app(t, decl):
  t = t if (z3.is_app(t) and t.decl().eq(decl)) else z3.simplify(t)
  if not (z3.is_app(t) and t.decl().eq(decl)): raise core.Unsupported('element is not a copy of one input element')
  return [t.arg(i) for i in range(t.num_args())]


class use:
  """Replaces attributes of a loaded module for the duration of a harness."""
  def __init__(self, m, **kw): self.m, self.kw = m, kw
  def __enter__(self):
    self.old = {k: getattr(self.m, k) for k in self.kw}
    for k, v in self.kw.items(): setattr(self.m, k, v)
  def __exit__(self, *a):
    for k, v in self.old.items(): setattr(self.m, k, v)


# ------------------------------------------------------------------------ C18 ----
@contract('C18', functions=[f'{MOD}.accumulate_gradients_and_metrics'], max_paths=60)
def microsteps():
  """Any number of devices, microsteps and examples per device and microstep; the given function is arbitrary."""
  m = loader.load(MOD)
  c = core.cur()
  Dn, Q = T.new_dim('devices'), T.new_dim('per_microstep')
  M = T.new_dim('microsteps', 2) if core.choose(2) else 1
  B = T.mkdim((*Dn.atoms, *Q.atoms, *(M.atoms if M != 1 else ())))
  img, lab = T.fresh_array('images', (B, *[T.new_dim('H')][:core.choose(2)])), T.fresh_array('labels', (B, *[T.new_dim('K')][:core.choose(2)]))
  Mt = term(M) if M != 1 else z3.IntVal(1)
  ks, rs = [z3.IntSort()], z3.RealSort()
  G = [z3.Function(c.fresh(n), z3.IntSort(), Key, rs) for n in ('GradA', 'GradB', 'Loss')]
  Next = z3.Function(c.fresh('NextKey'), z3.IntSort(), Key, Key)
  RN = z3.Function(c.fresh('KeyAt'), z3.IntSort(), Key)
  S = [z3.Function(c.fresh(n), z3.IntSort(), rs) for n in ('SumA', 'SumB', 'SumLoss')]
  params, k0 = object(), fresh_obj("key", "Key")
  assume(RN(0) == k0.t)
  for s in S: assume(s(0) == 0)
  def unfold(i):   # defining equations of the running sums and of the key sequence
    assume(RN(i + 1) == Next(i, RN(i)))
    for s, g in zip(S, G): assume(s(i + 1) == s(i) + g(i, RN(i)))
  def fn(p, images, labels, rngs):
    obligation('parameters passed on', z3.BoolVal(p is params))
    d, q = T.ivar(Dn.atoms[0], 'd'), T.ivar(Q.atoms[0], 'q')
    idx = []
    for arr, src in ((images, img), (labels, lab)):
      obligation('examples per microstep', z3.And(z3.BoolVal(arr.ndim == src.ndim), term(arr.shape[0]) == Dn.t * Q.t))
      rest = [(T.ivar(T.dim_atoms(s)[0], 'h'),) for s in src.shape[1:]]
      a = split_app(arr.el(T.conv_digits((d, q), (*Dn.atoms, *Q.atoms), arr.axes[0]), *rest), src.decl)
      obligation('examples of the same device, each at its place', z3.And(a[0] == d, a[1] == q, *[x == y[0] for x, y in zip(a[len(a) - len(rest):], rest)]))
      idx.append(a[2] if M != 1 else z3.IntVal(0))
    i = idx[0]
    obligation('images with their own labels', idx[0] == idx[1])
    obligation('microstep in range', z3.And(i >= 0, i < Mt))
    k = rngs['key'].t
    return dict(a=wrap(G[0](i, k)), b=wrap(G[1](i, k))), (dict(key=wrap(Next(i, k))), dict(loss=wrap(G[2](i, k))))
  def state_is(i, st, label):
    g, r, me = st
    obligation(f'{label}: running sums', z3.And(core.num(term(g['a'])) == S[0](i), core.num(term(g['b'])) == S[1](i), core.num(term(me['loss'])) == S[2](i)))
    obligation(f'{label}: key produced by the previous microstep', r['key'].t == RN(i))
  def fori(lo, hi, body, init):
    """Assumed contract of fori_loop: the loop rule, with the invariant above."""
    lo, hi = term(lo), term(hi)
    state_is(lo, init, 'before the loop')
    i = fresh_int('i', 0)
    saved = list(c.pc) if hasattr(c, 'pc') else None
    if core.choose(2) == 0:
      assume(z3.And(lo <= i.t, i.t < hi))
      unfold(i.t)
      st = body(i, (dict(a=wrap(S[0](i.t)), b=wrap(S[1](i.t))), dict(key=wrap(RN(i.t))), dict(loss=wrap(S[2](i.t)))))
      state_is(i.t + 1, st, 'after an iteration')
      raise core.PathEnd()
    e = z3.If(hi > lo, hi, lo)
    c.end = e
    return dict(a=wrap(S[0](e)), b=wrap(S[1](e))), dict(key=wrap(RN(e))), dict(loss=wrap(S[2](e)))
  unfold(z3.IntVal(0))
  core.assumption('assumed: jax.lax.fori_loop is the loop over range(lo, hi); sharding constraints do not change values')
  lax = Over(m.lax, fori_loop=fori, with_sharding_constraint=lambda x, s: x,
             dynamic_index_in_dim=lambda x, i, axis=0, keepdims=True: _index(x, i, axis, keepdims))
  with use(m, jax=Over(m.jax, device_count=lambda: Dn, lax=lax), lax=lax):
    f = m.accumulate_gradients_and_metrics(fn, M)
    if M == 1: obligation('one microstep is allowed', z3.BoolVal(callable(f)))
    try:
      g, (r, me) = f(params, img, lab, dict(key=k0))
    except core.PathEnd:
      return
  Mr = z3.ToReal(Mt)
  for x, s in ((g['a'], S[0]), (g['b'], S[1]), (me['loss'], S[2])):
    obligation('arithmetic mean over all microsteps', core.num(term(x)) * Mr == s(Mt))
  obligation('the last produced key is returned', r['key'].t == RN(Mt))


def _index(x, i, axis, keepdims):
  if keepdims: raise core.Unsupported('dynamic_index_in_dim with keepdims')
  key = [slice(None)] * axis + [i]
  return x[tuple(key)]


@contract('C18', functions=[f'{MOD}.accumulate_gradients_and_metrics'])
def no_microsteps():
  m = loader.load(MOD)
  fn = lambda *a: None
  neg = fresh_int('negative')
  assume(neg.t < 0)
  for k in (None, 0, neg): obligation('without microsteps the function itself', z3.BoolVal(m.accumulate_gradients_and_metrics(fn, k) is fn))


@contract('C18', functions=[f'{MOD}.accumulate_gradients_and_metrics'])
def indivisible_batch():
  """A batch whose examples of one device cannot be split evenly is rejected, never used unevenly."""
  m = loader.load(MOD)
  Dn, b, M = fresh_int('devices', 1), fresh_int('per_device', 1), fresh_int('microsteps', 2)
  assume(b.t % M.t != 0)
  B = fresh_int('batch', 1)
  assume(z3.And(B.t == Dn.t * b.t, B.t / Dn.t == b.t, B.t % Dn.t == 0))
  class Batch:
    __vc_symbolic__ = True
    dtype = ndim = None
    shape = (B, 3)
    def reshape(self, *a): return self
    def __getitem__(self, i): return self
    def swapaxes(self, *a): return self
  def fn(*a):
    obligation('rejected', z3.BoolVal(False))
    raise core.PathEnd()
  lax = Over(m.lax, with_sharding_constraint=lambda x, s: x, dynamic_index_in_dim=lambda x, *a, **k: x)
  with use(m, jax=Over(m.jax, device_count=lambda: Dn, lax=lax), lax=lax):
    try: m.accumulate_gradients_and_metrics(fn, M)('params', Batch(), Batch(), dict(key='key'))
    except (AssertionError, ValueError): obligation('rejected', z3.BoolVal(True))
    except core.PathEnd: return


# ------------------------------------------------------------------------ C19 ----
def key_type(c):
  """Keys as free constructors: a seed, or the i-th of n keys split from another one."""
  if not hasattr(c, 'keytype'):
    d = z3.Datatype(c.fresh('K'))
    d.declare('seed', ('value', z3.IntSort()))
    d.declare('split', ('parent', d), ('total', z3.IntSort()), ('index', z3.IntSort()))
    c.keytype = d.create()
    core.assumption('assumed: jax.random.PRNGKey and jax.random.split are collision-free (keys as free constructors)')
  return c.keytype


class Keys:
  """Array of keys (not a pytree node)."""
  __vc_symbolic__ = True
  def __init__(self, n, get): self.n, self.get, self.shape = n, get, (n, 2)
  def __len__(self): return self.n
  def __iter__(self): return iter([self.get(i) for i in range(self.n)])
  def __getitem__(self, i):
    if isinstance(i, slice): return [self.get(j) for j in range(self.n)[i]]
    return self.get(i + self.n if isinstance(i, int) and i < 0 else i)


def fresh_key(name):
  c = core.cur()
  return core.SObj(z3.Const(c.fresh(name), key_type(c)))


def split_key(k, num=2):
  K = key_type(core.cur())
  n = term(num)
  if isinstance(num, int): return Keys(num, lambda i: core.SObj(K.split(k.t, n, term(i))))
  return SSeq(num, lambda i: core.SObj(K.split(k.t, n, term(i))))


def apps_of(t, decl):
  out, seen = [], set()
  def go(e):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().eq(decl): out.append(e)
    for x in e.children(): go(x)
  go(t)
  return out


def mixture(label, t, x, row):
  """t is a convex combination of elements of x; returns [(arguments, weight)].  row(args) = is it the own element."""
  t = core.num(t)
  apps = apps_of(t, x.decl)
  obligation(f'{label}: made of examples of the batch', z3.BoolVal(bool(apps)))
  xs = [z3.Real(core.cur().fresh('x')) for _ in apps]
  g = z3.substitute(t, *zip(apps, xs))
  zero = [(v, z3.RealVal(0)) for v in xs]
  base = z3.simplify(z3.substitute(g, *zero))
  ws = [z3.simplify(z3.substitute(g, *[(v, z3.RealVal(1 if j == i else 0)) for j, v in enumerate(xs)])) for i in range(len(xs))]
  obligation(f'{label}: linear in the examples', z3.And(base == 0, g == z3.Sum(*[w * v for w, v in zip(ws, xs)], z3.RealVal(0))))
  return [([a.arg(i) for i in range(a.num_args())], w) for a, w in zip(apps, ws)]


def dirichlet_stub(log, size):
  def dirichlet(rng, alpha, shape=None, **k):
    alpha = T.asarr(alpha)
    log['key'], log['conc'] = rng, alpha
    w = T.fresh_array('Weights', alpha.shape)
    log['decl'] = w.decl
    core.assumption('assumed: jax.random.dirichlet returns non-negative weights that sum to one over the last axis')
    return w
  return dirichlet


def weight_facts(log, t, size):
  for a in apps_of(t, log['decl']):
    args = [a.arg(i) for i in range(a.num_args())]
    row = [log['decl'](*args[:-1], z3.IntVal(j)) for j in range(size)]
    for r in row: assume(r >= 0)
    assume(z3.Sum(*row) == 1)


def check_mix(log, size, outs, srcs, own, group):
  """outs: [(label, element term, source array, own index args)], all at the same example."""
  parts = []
  for (label, t, src, own_args) in outs:
    weight_facts(log, t, size)
    m = mixture(label, t, src, None)
    parts.append(m)
    ws = [w for _, w in m]
    obligation(f'{label}: weights are non-negative', z3.And(*[w >= 0 for w in ws]))
    obligation(f'{label}: weights sum to one', z3.Sum(*ws, z3.RealVal(0)) == 1)
    for args, w in m:
      obligation(f'{label}: of the same group and position', z3.And(*[a == o for j, (a, o) in enumerate(zip(args, own_args)) if j != group]))
    selfw = z3.Sum(*[z3.If(args[group] == own_args[group], w, 0) for args, w in m], z3.RealVal(0))
    obligation(f'{label}: the example itself weighs most', z3.And(*[selfw >= w for w in ws]))
  a, b = parts
  obligation('images and labels: same weights for the same examples',
             z3.And(z3.BoolVal(len(a) == len(b)), *[z3.And(x[0][group] == y[0][group], x[1] == y[1]) for x, y in zip(a, b)]))


@contract('C19', functions=[f'{MOD}.mixup'], bounded='at most three examples per mixture (any batch, group and array sizes)', max_paths=60)
def mixing_weights():
  m = loader.load(MOD)
  size = 2 + core.choose(2)
  D, Q, H, L = (T.new_dim(n) for n in ('groups', 'examples', 'H', 'L'))
  two = core.choose(2)
  bd = (D, Q) if two else (Q,)
  img, lab = T.fresh_array('images', (*bd, H)), T.fresh_array('labels', (*bd, L))
  gran = core.choose(3 if two else 2)
  shp = [(1, 1), (D, 1), (D, Q)][gran] if two else [(1,), (Q,)][gran]
  conc = fresh_real('concentration'); assume(conc.t > 0)
  log = {}
  k = fresh_key('key')
  with _mixing(m, log, size):
    oi, ol = m.mixup(k, (img, lab), concentration=conc, shape=(*shp, size), roll_axis=len(bd) - 1)
  obligation('weights drawn with the given key', log['key'].t == k.t)
  for o, s in ((oi, img), (ol, lab)):
    obligation('shape preserved', z3.And(z3.BoolVal(o.ndim == s.ndim), *[term(x) == term(y) for x, y in zip(o.shape, s.shape)]))
  ix = [T.ivar(T.dim_atoms(d)[0], 'b') for d in bd]
  h, l = T.ivar(H.atoms[0], 'h'), T.ivar(L.atoms[0], 'l')
  cd = lambda o: [T.conv_digits((x,), T.dim_atoms(d), a) for x, d, a in zip(ix, bd, o.axes)]
  check_mix(log, size, [('images', oi.el(*cd(oi), (h,)), img, [*ix, h]), ('labels', ol.el(*cd(ol), (l,)), lab, [*ix, l])], None, None, len(bd) - 1)


def _mixing(m, log, size, **kw):
  core.assumption('assumed: sharding constraints do not change values')
  rnd = Over(m.jax.random, dirichlet=dirichlet_stub(log, size), split=split_key)
  return use(m, jax=Over(m.jax, random=rnd, **kw), partitioning=Over(m.partitioning, with_sharding_constraint=lambda x, s: x))


@contract('C19', functions=[f'{MOD}.mixup'])
def mixup_rejections():
  m = loader.load(MOD)
  Q, H = T.new_dim('examples'), T.new_dim('H')
  P = T.new_dim('other'); assume(P.t != Q.t); assume(P.t > 1); assume(Q.t > 1)
  img, lab, lab2 = T.fresh_array('images', (Q, H)), T.fresh_array('labels', (Q,)), T.fresh_array('labels2', (P,))
  bad = fresh_real('concentration'); assume(bad.t <= 0)
  k = fresh_key('key')
  def rejects(what, tree, **kw):
    kw = dict(concentration=1.0, shape=(1, 2), roll_axis=0) | kw
    log = {}
    with _mixing(m, log, 2):
      try:
        m.mixup(k, tree, **kw)
        obligation(f'rejected: {what}', z3.BoolVal(False))
      except ValueError: obligation(f'rejected: {what}', z3.BoolVal(True))
  ax = fresh_int('roll_axis'); assume(z3.Or(ax.t < 0, ax.t >= 1))
  rejects('concentration not positive', (img, lab), concentration=bad)
  rejects('roll axis outside the batch axes', (img, lab), roll_axis=ax)
  rejects('weights without batch axis', (img, lab), shape=(2,))
  rejects('arrays of different batch sizes', (img, lab2))
  rejects('weights for another batch size', (img, lab), shape=(P, 2))


class St:
  """A training state: immutable record with replace()."""
  def __init__(self, **kw): self.__dict__.update(kw)
  def replace(self, **kw): return St(**{**self.__dict__, **kw})


@contract('C19', functions=[f'{MOD}.wrap_train_step_with_mixup', f'{MOD}.mixup'], bounded='at most three examples per mixture (any device count, batch and array sizes)', max_paths=120)
def mixup_wrapper():
  import flax
  m = loader.load(MOD)
  size = 2 + core.choose(2)
  D, Q, H, L = (T.new_dim(n) for n in ('devices', 'per_device', 'H', 'L'))
  B = T.mkdim((*D.atoms, *Q.atoms))
  img, lab = T.fresh_array('images', (B, H)), T.fresh_array('labels', (B, L))
  gran = ['batch', 'device', 'example'][core.choose(3)]
  frozen = bool(core.choose(2))
  k0, d0, d1 = fresh_key('mixup_key'), fresh_key('dropout_key'), fresh_key('next_dropout_key')
  conc = fresh_real('concentration'); assume(conc.t > 0)
  fz = flax.core.freeze if frozen else (lambda x: x)
  log, calls = {}, []
  extra, metrics = object(), dict(loss=object())
  other = object()
  def step(state, images, labels, *a, **kw):
    calls.append(1)
    obligation('further arguments passed on', z3.BoolVal(a == (extra,) and kw == dict(flag=extra)))
    obligation('state otherwise unchanged', z3.BoolVal(state.params is other))
    obligation('the wrapped step does not see the mixup key', z3.BoolVal(sorted(state.rngs) == ['dropout']))
    obligation('other keys passed through', state.rngs['dropout'].t == d0.t)
    obligation('kind of collection kept', z3.BoolVal(isinstance(state.rngs, flax.core.FrozenDict) == frozen))
    d, q, h, l = T.ivar(D.atoms[0], 'd'), T.ivar(Q.atoms[0], 'q'), T.ivar(H.atoms[0], 'h'), T.ivar(L.atoms[0], 'l')
    for o, s in ((images, img), (labels, lab)):
      obligation('shape preserved', z3.And(z3.BoolVal(o.ndim == s.ndim), *[term(x) == term(y) for x, y in zip(o.shape, s.shape)]))
    cd = lambda o: T.conv_digits((d, q), (*D.atoms, *Q.atoms), o.axes[0])
    check_mix(log, size, [('images', images.el(cd(images), (h,)), img, [d, q, h]), ('labels', labels.el(cd(labels), (l,)), lab, [d, q, l])], None, None, 1)
    return state.replace(rngs=fz(dict(dropout=d1)), params='new'), metrics
  state = St(params=other, rngs=fz(dict(mixup=k0, dropout=d0)))
  with _mixing(m, log, size, device_count=lambda: D):
    f = m.wrap_train_step_with_mixup(step, concentration=conc, granularity=gran, size=size)
    out, me = f(state, img, lab, extra, flag=extra)
  obligation('the step runs once', z3.BoolVal(calls == [1]))
  obligation('metrics and state of the step are returned', z3.BoolVal(me is metrics and out.params == 'new'))
  obligation('all keys present', z3.BoolVal(sorted(out.rngs) == ['dropout', 'mixup'] and isinstance(out.rngs, flax.core.FrozenDict) == frozen))
  obligation('other keys are those the step returned', out.rngs['dropout'].t == d1.t)
  obligation('the mixup key advances', z3.And(out.rngs['mixup'].t != k0.t, out.rngs['mixup'].t != log['key'].t))
  per = {'batch': (), 'device': (0,), 'example': (0, 1)}[gran]
  cs = log['conc'].shape
  obligation('weights per batch, device or example as requested', z3.And(z3.BoolVal(len(cs) == 3), *[term(cs[j]) == (term((D, Q)[j]) if j in per else 1) for j in range(2)], term(cs[2]) == size))


@contract('C19', functions=[f'{MOD}.wrap_train_step_with_mixup'])
def mixup_off():
  m = loader.load(MOD)
  step = lambda *a: None
  for c_ in (None, 0, 0.0): obligation('no concentration: the step itself', z3.BoolVal(m.wrap_train_step_with_mixup(step, concentration=c_) is step))
  f = m.wrap_train_step_with_mixup(step, concentration=1.0)
  try:
    f(St(rngs=dict(dropout=fresh_key('k'))), None, None)
    obligation('missing mixup key is rejected', z3.BoolVal(False))
  except ValueError: obligation('missing mixup key is rejected', z3.BoolVal(True))


# ------------------------------------------------------------------------ C27 ----
Path_ = core.sort('Text')
Obj = core.sort('Value')
ShapeDtypeStruct = __import__('jax').ShapeDtypeStruct


class Leaf:
  """An array of the state, or a description of one that is still missing."""
  __vc_symbolic__ = True
  def __init__(self, t): self.t = t
  def __vc_types__(self):
    c = core.cur()
    return (ShapeDtypeStruct,) if decide(c.missing(self.t)) else (__import__('jax').Array,)
  @property
  def sharding(self): return Leaf(core.cur().sharding(self.t))


def join_leaf(c_, a, b): return Leaf(z3.If(c_, a.t, b.t))


def merged_inv(i, n, st):
  c = core.cur()
  d, new, orig = st['train_state_dict'], c.new, c.orig
  q = z3.Const(c.fresh('q'), Path_)
  done = z3.And(new.space.member(q), new.position(wrap(q)) < term(i))
  return [('missing arrays seen so far are in place, all others as given',
           z3.ForAll([q], z3.Implies(d.space.member(q), d.val(wrap(q)).t == z3.If(done, new.val(wrap(q)).t, orig(q)))))]


def merged_havoc(i, n, st):
  c = core.cur()
  F = z3.Function(c.fresh('Merged'), Path_, Obj)
  return dict(train_state_dict=KDict(st['train_state_dict'].space, lambda q: Leaf(F(term(q))), join=join_leaf))


loops.loop(MOD, 'create_or_reuse_train_state#0', vars=('train_state_dict',), inv=merged_inv, havoc=merged_havoc)


@contract('C27', functions=[f'{MOD}.create_or_reuse_train_state'], max_paths=60)
def present_arrays_are_kept():
  """Any state structure, any subset of missing arrays."""
  m = loader.load(MOD)
  c = core.cur()
  sp = KSpace(Path_, fresh_int('leaves', 0))
  Orig, Init = (z3.Function(c.fresh(n), Path_, Obj) for n in ('Given', 'Fresh'))
  c.missing = z3.Function(c.fresh('IsMissing'), Obj, z3.BoolSort())
  c.sharding = z3.Function(c.fresh('Sharding'), Obj, Obj)
  c.orig = Orig
  given, fresh = object(), object()
  def flatten(d, keep_empty_nodes=False, sep=None):
    obligation('empty nodes are kept', z3.BoolVal(keep_empty_nodes is True))
    F = {id(given): Orig, id(fresh): Init}[id(d[1])]
    return KDict(sp, lambda k: Leaf(F(term(k))), join=join_leaf)
  def from_state(t, d):
    obligation('structure of the given state', z3.BoolVal(t is given))
    return ('state', d)
  def pjit(fn, in_shardings=None, out_shardings=None, **k):
    def run():
      r = fn()
      q = z3.Const(c.fresh('q'), Path_)
      obligation('a sharding for every new array and vice versa', z3.ForAll([q], r.space.member(q) == out_shardings.space.member(q)))
      w = z3.Const(c.fresh('w'), Path_)
      obligation('sharding of the missing array', z3.Implies(r.space.member(w), out_shardings.val(wrap(w)).t == c.sharding(Orig(w))))
      c.new = KDict(r.space, r.val, join=join_leaf)
      return c.new
    return run
  class Mesh:
    def __enter__(self): return self
    def __exit__(self, *a): return False
  core.assumption('assumed: to_state_dict/flatten_dict list every leaf once under its path, unflatten_dict/from_state_dict put values back under their paths; pjit of a function without arguments returns its result; a state created from scratch has the structure of the given one')
  fl = Over(m.flax, traverse_util=_types.SimpleNamespace(flatten_dict=flatten, unflatten_dict=lambda d, sep=None: d),
            serialization=_types.SimpleNamespace(to_state_dict=lambda t: ('sd', t), from_state_dict=from_state))
  with use(m, flax=fl, pjit=_types.SimpleNamespace(pjit=pjit)):
    r = m.create_or_reuse_train_state(train_state=given, initialize_fn=lambda: fresh, mesh=Mesh())
  obligation('a state is returned', z3.BoolVal(isinstance(r, tuple) and r[0] == 'state' and isinstance(r[1], KDict)))
  w = z3.Const(c.fresh('w'), Path_)
  assume(sp.member(w))
  d = r[1]
  obligation('every path of the given state', d.space.member(w))
  miss = c.missing(Orig(w))
  obligation('present arrays are returned unchanged', z3.Implies(z3.Not(miss), d.val(wrap(w)).t == Orig(w)))
  obligation('missing arrays are initialised from scratch', z3.Implies(miss, d.val(wrap(w)).t == Init(w)))


@contract('C27', functions=[f'{MOD}.get_train_steps_and_epochs'], max_paths=60)
def steps_and_epochs():
  m = loader.load(MOD)
  b, n = fresh_int('batch', 1), fresh_int('examples', 1)
  kind = core.choose(6)
  s, e = fresh_int('steps', 1), fresh_real('epochs')
  assume(e.t > 0)
  given = [dict(train_steps=s), dict(train_epochs=e), dict(), dict(train_steps=s, train_epochs=e), dict(train_steps=0), dict(train_epochs=0)][kind]
  core.assumption('floating-point arithmetic of step and epoch counts treated as exact')
  try:
    steps, epochs = m.get_train_steps_and_epochs(train_batch_size=b, train_examples=n, **given)
  except ValueError:
    obligation('exactly one of steps and epochs may be given', z3.BoolVal(kind >= 2))
    return
  obligation('exactly one of steps and epochs must be given', z3.BoolVal(kind < 2))
  st = core.num(term(steps))
  obligation('whole number of steps', z3.BoolVal(isinstance(steps, core.SInt)))
  obligation('epochs of the returned steps', core.to_real(core.num(term(epochs))) * z3.ToReal(n.t) == core.to_real(st) * z3.ToReal(b.t))
  if kind == 0: obligation('steps as requested', st == s.t)
  else:
    covered = lambda k: core.to_real(k) * z3.ToReal(b.t) >= e.t * z3.ToReal(n.t)
    obligation('the steps cover the requested epochs', covered(st))
    obligation('no fewer steps do', z3.Not(covered(st - 1)))


@contract('C27', functions=[f'{MOD}.restore_or_create_train_state'])
def restore_or_create():
  """The latest checkpoint decides; otherwise the (possibly partially initialised) state is completed."""
  import jax
  m = loader.load(MOD)
  calls = []
  class Mesh: pass
  mesh = Mesh()
  shapes = St(params=dict(w=ShapeDtypeStruct((2, 3), 'float32')))
  step = fresh_int('step', 0)
  have = core.choose(2)
  init = [None, {}, dict(name='x', a=1)][core.choose(3)]
  state, idx, created, partial = object(), fresh_int('seen', 0), object(), object()
  struct = object()
  class Mgr:
    def latest_step(self): return step if have else None
    def restore(self, s, *a, **k):
      calls.append('restore')
      obligation('the latest checkpoint is restored', term(s) == step.t)
      return dict(state=state, dataset_iterator=dict(last_seen_index=idx))
  def initialise(train_state, **k):
    calls.append('partial')
    obligation('initialisation as configured', z3.BoolVal(train_state is struct and {x: y for x, y in k.items() if x not in ('mesh', 'thread_pool')} == init))
    return partial
  def create(train_state, initialize_fn, mesh):
    calls.append('create')
    obligation('completes the partially initialised state', z3.BoolVal(train_state is (partial if init else struct) and initialize_fn is fn))
    return created
  fn = lambda: None
  trees = []
  def tree_map(f, *t):
    trees.append(t)
    return struct if len(t) == 2 else object()
  jx = Over(m.jax, eval_shape=lambda f: shapes, tree_util=Over(m.jax.tree_util, tree_map=tree_map))
  core.assumption('assumed: the checkpoint manager restores what was saved under the given step (orbax)')
  import orbax.checkpoint as oc
  with use(m, jax=jx, partitioning=Over(m.partitioning, tree_axis_resources_from_regexes=lambda **k: 'specs'),
           initialize_train_state_from_checkpoint=initialise, create_or_reuse_train_state=create,
           parameter_overview=Over(None, log_parameter_overview=lambda *a, **k: None),
           orbax=_types.SimpleNamespace(checkpoint=_types.SimpleNamespace(args=_types.SimpleNamespace(Composite=lambda **k: k, PyTreeRestore=lambda *a, **k: a, JsonRestore=lambda: None)))):
    r, last = m.restore_or_create_train_state(ckpt_manager=Mgr(), initialize_fn=fn, axis_resources_regexes=[], mesh=mesh, initialization_kwargs=init)
  if have:
    obligation('restored state, nothing created', z3.BoolVal(calls == ['restore'] and r is state))
    obligation('position in the data as saved', term(last) == idx.t)
  else:
    obligation('created, with partial initialisation exactly when configured', z3.BoolVal(calls == (['partial', 'create'] if init else ['create']) and r is created and last is None))


class Cfg(dict):
  """A configuration (ConfigDict)."""
  def __getattr__(self, a):
    if a.startswith('__') or a not in self: raise AttributeError(a)
    return self[a]
  def to_dict(self): return dict(self)
  def copy_and_resolve_references(self): return Cfg(self)


def loop_inv(i, n, st):
  c = core.cur()
  k = c.init + term(i)
  return [('state after the steps so far', st['train_state'].t == c.S(k)), ('last request is for the last step', z3.Or(term(i) == 0, c.saved == k)),
          ('steps done', c.done == k)]


def loop_havoc(i, n, st):
  c = core.cur()
  c.saved, c.done = z3.Int(c.fresh('saved')), z3.Int(c.fresh('done'))
  return dict(train_state=RunState(z3.Const(c.fresh('state'), Obj)))


class RunState:
  __vc_symbolic__ = True
  def __init__(self, t): self.t = t
  @property
  def step(self): return wrap(core.cur().stepnum(self.t))
  @property
  def params(self): return self


loops.loop(MOD, 'train_and_evaluate#0', vars=('train_state',), inv=loop_inv, havoc=loop_havoc)


@contract('C27', functions=[f'{MOD}.train_and_evaluate'], max_paths=200)
def training_loop():
  """Any first and last step, any sequence of batches; the training step is an arbitrary function of state and batch."""
  m = loader.load(MOD)
  c = core.cur()
  I = z3.IntSort()
  bs, last = fresh_int('batch_size', 1), fresh_int('train_steps', 1)
  c.init = fresh_int('restored_step', 0).t
  assume(c.init <= last.t)
  c.S = z3.Function(c.fresh('StateAfter'), I, Obj)
  c.stepnum = z3.Function(c.fresh('StepNumber'), Obj, I)
  Img, Lab = (z3.Function(c.fresh(n), I, Obj) for n in ('Image', 'Labels'))
  Step = z3.Function(c.fresh('Step'), Obj, Obj, Obj, Obj)
  S0 = z3.Const(c.fresh('restored'), Obj)
  assume(c.S(c.init) == S0); assume(c.stepnum(S0) == c.init)
  c.saved, c.done = c.init - 1, c.init
  existing = bool(core.choose(2))     # do the first/last checkpoints exist already
  seen = dict(force=None)
  class Writer:
    def write_scalars(self, *a): pass
  class Mgr:
    def save(self, step, items=None, force=False, **k):
      s = term(step)
      obligation('a checkpoint holds the state after the step it is named after', items['state'].t == c.S(s))
      obligation('and the number of examples used up to it', term(items['dataset_iterator']['last_seen_index']) == s * bs.t)
      obligation('only steps that have been done', c.done == s)
      seen['force'] = force
      c.saved = s
    def wait_until_finished(self): pass
  def pjit(fun=None, **k):
    class F:
      def lower(self, *a): return self
      def compile(self): return self
      def __call__(self, state, images, labels):
        k_ = c.done
        obligation('each step takes the next batch', z3.And(images.t == Img(k_ - c.init), labels.t == Lab(k_ - c.init)))
        obligation('each step starts from the previous state', state.t == c.S(k_))
        r = Step(state.t, images.t, labels.t)
        assume(c.S(k_ + 1) == r)
        c.done = k_ + 1
        return RunState(r), dict(loss=0.)
    return F()
  def hook(name):
    def f(step, **k):
      obligation(f'{name} told the number of the step just done', term(step) == c.done)
      for a in ('params',):
        if a in k: obligation(f'{name} gets the parameters after the step', k[a].t == c.S(c.done))
      if 'variables' in k: obligation(f'{name} gets the parameters after the step', k['variables']['params'].t == c.S(c.done))
    return f
  def hooks(name):
    def mk(**k):
      if 'first_step' in k: obligation(f'{name} starts at the first step to do', term(k['first_step']) == c.init + 1)
      if 'train_steps' in k: obligation(f'{name} ends at the last step', term(k['train_steps']) == last.t)
      return hook(name), {}
    return mk
  class Progress:
    def __call__(self, step, **k): hook('progress')(step)
    def timed(self, *a, **k): return Ctxm()
  class Ctxm:
    def __enter__(self): return self
    def __exit__(self, *a): return False
  def restore(**k): return RunState(S0), None
  it = SSeq(None, lambda i: dict(image=Leaf(Img(term(i))), labels=Leaf(Lab(term(i)))))
  cfg = Cfg(dataset=Cfg(train=Cfg(batch_size=bs)), model=Cfg(), optimizer=Cfg(), params_axis_resources=[], loss=Cfg(name='x'))
  ns = _types.SimpleNamespace
  core.assumption('assumed: range/zip, the hooks and the checkpoint manager keep no reference to train_state across steps; the dataset iterator does not end before the last step')
  with use(m, input_pipeline=ns(get_datasets=lambda c_: dict(train=1, val=2), get_data_num_examples=lambda c_: 10),
           get_train_steps_and_epochs=lambda **k: (last, 1.), pjit_utils=ns(get_dataset_shape_dtype_struct=lambda d: dict(image=1, labels=2)),
           create_checkpoint_manager=lambda **k: Mgr(), make_create_train_state_fn=lambda **k: None, create_flax_model=lambda **k: None,
           restore_or_create_train_state=restore, get_dataset_iterator=lambda **k: it, get_loss_fn=lambda **k: (1, 2, 3),
           create_tree_summarizer=lambda c_: None, pjit=ns(pjit=pjit), create_profile_hook=lambda **k: (lambda s: None),
           create_progress_hook=lambda **k: (hooks('progress')(**k), Progress())[1], create_evaluation_hook=hooks('evaluation'), create_fewshot_hook=hooks('fewshot'),
           multihost_utils=ns(sync_devices=lambda *a: None), utils=ns(get_flops_and_seconds_per_device=lambda f: (None, None)),
           make_train_cost_fn=lambda f: (lambda s: {}), ThreadPool=lambda: None,
           tf=ns(io=ns(gfile=ns(exists=lambda p: existing))), os=ns(path=ns(join=lambda *a: a)),
           jax=Over(m.jax, profiler=ns(StepTraceAnnotation=lambda *a, **k: Ctxm()), tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: None))):
    m.train_and_evaluate(cfg, 'workdir', None, Writer())
  obligation('every step up to the last has been done', c.done == last.t)
  obligation('the last state is checkpointed', z3.BoolVal(True) if existing else c.saved == last.t)
  if not existing: obligation('the last checkpoint is forced', z3.BoolVal(seen['force'] is True))


# ------------------------------------------------------------------------ C28 ----
def depth_of(c, K):
  if not hasattr(c, 'kdepth'): c.kdepth = z3.Function(c.fresh('Depth'), K, z3.IntSort())
  return c.kdepth


def unfold_depth(c, K, k, n, i):
  """Defining equation of the number of splits behind a key."""
  d = depth_of(c, K)
  assume(d(K.split(k, n, i)) == d(k) + 1)


class Tree:
  """A tree of keys with any number of leaves; leaf p is f(p)."""
  __vc_symbolic__ = True
  def __init__(self, f): self.f = f


@contract('C28', functions=[f'{UTILS}.make_rngs'], max_paths=40)
def named_keys():
  """Any number of distinct names, any seed."""
  m = loader.load(UTILS)
  c = core.cur()
  K = key_type(c)
  n = fresh_int('names', 0)
  nm = z3.Function(c.fresh('Name'), z3.IntSort(), Path_)
  seed = fresh_int('seed')
  rnd = Over(m.jax.random, PRNGKey=lambda s: core.SObj(K.seed(term(s))), key=lambda s: core.SObj(K.seed(term(s))), split=split_key)
  with use(m, jax=Over(m.jax, random=rnd)):
    r = m.make_rngs(SSeq(n, lambda q: wrap(nm(term(q))), 'tuple'), seed)
    if isinstance(r, dict):
      obligation('no names: no keys', z3.And(n.t == 0, z3.BoolVal(r == {}))); return
    r2 = m.make_rngs(SSeq(n, lambda q: wrap(nm(term(q))), 'tuple'), seed)
  i, j = fresh_int('i', 0, n), fresh_int('j', 0, n)
  obligation('one key per name', term(loader.b_len(r)) == n.t)
  obligation('under its own name', core.same(r.pairs.get(i)[0], wrap(nm(i.t))))
  a, b = r.pairs.get(i)[1].t, r.pairs.get(j)[1].t
  obligation('different names get different keys', z3.Implies(i.t != j.t, a != b))
  obligation('the same seed and names give the same keys', a == r2.pairs.get(i)[1].t)
  for x in (a, b):
    if z3.is_app(x) and x.decl().eq(K.split): unfold_depth(c, K, *x.children())
  obligation('all keys have the same number of splits behind them', depth_of(c, K)(a) == depth_of(c, K)(b))


@contract('C28', functions=[f'{UTILS}.tree_rngs_split'], max_paths=40)
def split_collections():
  """Any tree of keys (pairwise different, equally many splits behind each), any number of parts."""
  m = loader.load(UTILS)
  c = core.cur()
  K = key_type(c)
  key = z3.Function(c.fresh('KeyAt'), z3.IntSort(), K)
  p, q = fresh_int('p', 0), fresh_int('q', 0)
  D = depth_of(c, K)
  assume((key(p.t) == key(q.t)) == (p.t == q.t))
  assume(D(key(p.t)) == D(key(q.t)))
  n = fresh_int('parts', 1) if core.choose(2) else None
  core.assumption('assumed: jax.tree_util.tree_map applies the function to every leaf')
  jx = Over(m.jax, random=Over(m.jax.random, split=split_key), tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: Tree(lambda l: f(t.f(l)))),
            tree=Over(m.jax.tree, map=lambda f, t: Tree(lambda l: f(t.f(l)))))
  with use(m, jax=jx):
    t = Tree(lambda l: core.SObj(key(term(l))))
    r = m.tree_rngs_split(t) if n is None else m.tree_rngs_split(t, n)
    n = 2 if n is None else n
    obligation('as many collections as requested', term(loader.b_len(r)) == term(n))
    i, j = fresh_int('i', 0, n), fresh_int('j', 0, n)
    if isinstance(r, tuple):
      from vc.seqs import asseq
      r = asseq(r)
    a, b = r.get(i).f(p).t, r.get(j).f(q).t
  for x in (a, b):
    if z3.is_app(x) and x.decl().eq(K.split): unfold_depth(c, K, *x.children())
  obligation('different parts or leaves have different keys', z3.Implies(z3.Or(i.t != j.t, p.t != q.t), a != b))
  obligation('no key of the original collection', z3.And(a != key(p.t), a != key(q.t)))
  obligation('one more split behind every key', z3.And(D(a) == D(key(p.t)) + 1, D(b) == D(key(q.t)) + 1))


@contract('C28', functions=[f'{MOD}.train_step', f'{UTILS}.tree_rngs_split'], max_paths=40)
def training_step_keys():
  """One evaluation of the gradient function (the microsteps hand over the keys one after the other, see C18)."""
  m = loader.load(MOD)
  c = core.cur()
  K = key_type(c)
  D = depth_of(c, K)
  ks = dict(dropout=fresh_key('dropout'), gating=fresh_key('gating'))
  assume(ks['dropout'].t != ks['gating'].t)
  assume(D(ks['dropout'].t) == D(ks['gating'].t))
  used, log = [], {}
  params, grads, steps = object(), dict(a=object()), object()
  B = T.new_dim('examples')
  img, lab, logits = (T.fresh_array(n, (B,)) for n in ('images', 'labels', 'logits'))
  aux = fresh_real('aux')
  with_aux = core.choose(2)
  def apply_fn(variables, images, rngs=None, **k):
    obligation('the model gets the given parameters and images', z3.BoolVal(variables == {'params': params} and images is img))
    used.append(dict(rngs))
    return logits, (dict(auxiliary_loss=aux) if with_aux else {})
  def grad(f=None, has_aux=False, **k):
    def g(*a):
      loss, aux_ = f(*a)
      log['loss'] = loss
      return grads, aux_
    return g
  def accumulate(f, microsteps):
    obligation('number of microsteps as requested', z3.BoolVal(microsteps is steps))
    return f
  def apply_gradients(g, rngs=None, **k):
    obligation('the computed gradients are applied', z3.BoolVal(g is grads))
    log['rngs'] = rngs
    return new, dict(grads=fresh_real('norm'))
  state = St(params=params, rngs=dict(ks), apply_fn=apply_fn, apply_gradients_and_compute_global_norms=apply_gradients)
  new = object()
  core.assumption('assumed: jax.grad(f, has_aux=True) evaluates f once and returns its gradient and auxiliary output')
  u = loader.load(UTILS)
  def loss_fn(a, b):
    obligation('loss of the predictions against the labels', z3.BoolVal(a is logits and b is lab))
    return T.fresh_array('loss', (B,))
  with use(u, jax=Over(u.jax, random=Over(u.jax.random, split=split_key))), \
       use(m, utils=u, jax=Over(m.jax, grad=grad), accumulate_gradients_and_metrics=accumulate):
    st, me = m.train_step(state, img, lab, loss_fn, microsteps=steps)
  obligation('the updated state is returned', z3.BoolVal(st is new))
  obligation('the model runs once per evaluation', z3.BoolVal(len(used) == 1 and sorted(used[0]) == sorted(ks) and sorted(log['rngs']) == sorted(ks)))
  total, main = core.num(term(log['loss'])), core.num(term(me['main_loss']))
  obligation('gradient of main plus auxiliary loss', z3.And(total == main + (aux.t if with_aux else 0), core.num(term(me['total_loss'])) == total))
  now, nxt = [k.t for k in used[0].values()], [k.t for k in log['rngs'].values()]
  old = [k.t for k in ks.values()]
  for x in now + nxt:
    if z3.is_app(x) and x.decl().eq(K.split): unfold_depth(c, K, *x.children())
  obligation('keys used are not carried over', z3.And(*[a != b for a in now for b in nxt]))
  obligation('keys of the previous state are neither used nor carried over', z3.And(*[a != b for a in now + nxt for b in old]))
  obligation('all keys differ', z3.Distinct(*now, *nxt))
  obligation('one more split behind every key', z3.And(*[D(x) == D(old[0]) + 1 for x in now + nxt]))
  obligation('each key stays under its name', z3.And(*[K.parent(log['rngs'][k].t) == ks[k].t for k in ks]))


loops.enable(UTILS)
