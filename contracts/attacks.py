"""C23: adversarial attacks (vmoe/projects/adversarial_attacks/attacks.py, trainer.wrap_train_step_with_adversarial_attack)."""
import types as _types
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use, key_type, fresh_key, split_key, St

MOD = 'vmoe.projects.adversarial_attacks.attacks'
TRAINER = 'vmoe.train.trainer'
ns = _types.SimpleNamespace


def idx_of(x, name='p'):
  return tuple((T.ivar(T.dim_atoms(s)[0], name),) for s in x.shape)


@contract('C23', functions=[f'{MOD}.stateless_attack_pgd'], max_paths=60)
def perturbation():
  """Any images, model, loss, gradients, epsilon and number of updates (by the loop rule for fori_loop)."""
  m = loader.load(MOD)
  c = core.cur()
  B, H = T.new_dim('batch'), T.new_dim('pixels')
  shape = [(B, H), (B, H, T.new_dim('W')), (B,)][core.choose(3)]
  img = T.fresh_array('images', shape)
  labels = object()
  U, eps = fresh_int('updates', 1), fresh_real('max_epsilon')
  assume(eps.t >= 0)
  have = core.choose(2)
  k = fresh_key('key')
  rngs = dict(a=k) if have else None
  used, calls = [], []

  def grad(f, *a, **kw):
    def g(x, *rest):
      calls.append((f, x, rest))
      used.append(rest[0] if rest else None)
      return T.fresh_array('gradient', x.shape)
    return g

  def close(x, i):
    """|x - images| <= i * epsilon / updates, everywhere."""
    vs = [z3.Int(c.fresh('z')) for _ in img.shape]
    at = [(v,) for v in vs]
    d = core.num(x.el(*at)) - core.num(img.el(*at))
    lim = core.to_real(core.num(term(i))) * eps.t / core.to_real(U.t)
    return vs, z3.And(d <= lim, -d <= lim)

  def fori(lo, hi, body, init):
    core.assumption('assumed: jax.lax.fori_loop(lo, hi, body, x) applies body(i, .) for i = lo, ..., hi - 1 in order')
    obligation('the given number of updates', term(hi) - term(lo) == U.t)
    steps = lambda i: wrap(core.num(term(i)) - core.num(term(lo)))
    vs, f = close(T.asarr(init), 0)
    ix = idx_of(img)
    sub = lambda vs, f: z3.substitute(f, *[(v, i[0]) for v, i in zip(vs, ix)])
    obligation('perturbation before the updates', sub(vs, f))
    i = fresh_int('update')
    assume(i.t >= term(lo)); assume(i.t < term(hi))
    X = T.fresh_array('current', img.shape)
    vs, f = close(X, steps(i))
    assume(sub(vs, f))
    Y = T.asarr(body(i, X))
    obligation('shape is kept', z3.BoolVal(T.akeys([a for s in Y.axes for a in s]) == T.akeys([a for s in img.axes for a in s]) and Y.ndim == img.ndim))
    vs, f = close(Y, steps(i + 1))
    obligation('perturbation after one more update', sub(vs, f))
    # another update: fresh keys.
    if have:
      j = fresh_int('other')
      assume(j.t >= term(lo)); assume(j.t < term(hi)); assume(j.t != i.t)
      body(j, X)
      obligation('every update uses its own keys', used[-1]['a'].t != used[-2]['a'].t)
      c.upd = used[-2]['a'].t
    R = T.fresh_array('result', img.shape)
    vs, f = close(R, wrap(U.t))
    c.result = (R, sub(vs, f))
    assume(c.result[1])
    return R

  jx = Over(m.jax, grad=grad, value_and_grad=lambda f, *a, **kw: (lambda *z: (None, grad(f)(*z))), lax=Over(m.jax.lax, fori_loop=fori), random=Over(m.jax.random, split=split_key))
  lossval = T.fresh_array('loss', (B,))
  logits, metrics = object(), object()
  def apply_fn(x, rngs=None):
    c.applied = (x, rngs)
    return logits, metrics
  def loss_fn(a, b, c_):
    obligation('loss of the outputs against the labels', z3.BoolVal(a is logits and b is labels and c_ is metrics))
    return lossval
  with use(m, jax=jx):
    out, new = m.stateless_attack_pgd(img, labels, rngs, max_epsilon=eps, num_updates=U, apply_fn=apply_fn, loss_fn=loss_fn)
    # the attacked function is the mean loss of the model.
    f, x, rest = calls[0]
    val = f(x, *rest)
    obligation('attacks the mean loss of the model', z3.And(z3.BoolVal(c.applied[0] is x and c.applied[1] is rest[0]), core.num(term(val)) == core.num(term(T.reduce_mean(lossval)))))
  ix = idx_of(img)
  d = core.num(T.asarr(out).el(*ix)) - core.num(img.el(*ix))
  assume(z3.substitute(c.result[1], *[(a[0], b[0]) for a, b in zip(idx_of(img), ix)]))
  vs, f = close(c.result[0], wrap(U.t))
  assume(z3.substitute(f, *[(v, i[0]) for v, i in zip(vs, ix)]))
  obligation('every pixel within the maximum', z3.And(d <= eps.t, -d <= eps.t))
  if have:
    obligation('returned keys are fresh', z3.And(z3.BoolVal(list(new) == ['a']), new['a'].t != c.upd, new['a'].t != k.t, c.upd != k.t))
  else: obligation('without keys', z3.BoolVal(new is None and all(u is None for u in used)))


def total(x): return core.to_real(core.num(term(T.reduce_sum(x, None))))


@contract('C23', functions=[f'{MOD}.sum_intersection_over_union'], max_paths=20)
def overlap_of_experts():
  """Per example: the mean over tokens of |A and B| / |A or B| of the chosen experts (nothing for tokens without experts)."""
  m = loader.load(MOD)
  B, N, E = T.new_dim('batch'), T.new_dim('tokens'), T.new_dim('experts')
  w = [T.fresh_array(n, (B, N, E)) for n in ('before', 'after')]
  r = m.sum_intersection_over_union(*w)
  a, b = [T.where(x > 0, 1., 0.) for x in w]
  inter, union = T.reduce_sum(T.minimum(a, b), -1), T.reduce_sum(T.maximum(a, b), -1)
  want = T.reduce_sum(T.where(union > 0, inter / union, 0.), None)
  obligation('sum over examples of the mean overlap', core.to_real(core.num(term(r))) == core.to_real(core.num(term(want))) / core.to_real(N.t), dict(linear_sums=True, opaque_div=True, nowit=True))


@contract('C23', functions=[f'{MOD}.stateful_attack', f'{MOD}.AttackState.update', f'{MOD}.AttackState.create'], max_paths=60)
def statistics():
  """Any batch, validity mask, losses, predictions and routing before and after."""
  m = loader.load(MOD)
  B, H, N, E = T.new_dim('batch'), T.new_dim('pixels'), T.new_dim('tokens'), T.new_dim('experts')
  x, xm, y = T.fresh_array('x', (B, H)), T.fresh_array('xm', (B, H)), object()
  kind = core.choose(3)
  valid = None if kind == 0 else T.fresh_array('valid', (B,), 'bool')
  if kind == 2: valid = valid.astype('float32')
  L = [T.fresh_array(n, (B,)) for n in ('loss0', 'loss1')]
  Y = [T.fresh_array(n, (B,), 'int32') for n in ('pred0', 'pred1')]
  Cc = [T.fresh_array(n, (B,), 'bool').astype('int32') for n in ('correct0', 'correct1')]
  names = ['r1', 'r2'][:core.choose(2) + 1]
  W = [{r: T.fresh_array(f'{r}_{n}', (B, N, E)) for r in names} for n in ('w0', 'w1')]
  k0, k1 = fresh_key('key'), fresh_key('newkey')
  z = m.AttackState.create(max_updates=3, router_keys=names, rngs=dict(k=k0))
  zero = lambda v: core.to_real(core.num(term(v))) == 0
  obligation('totals start at zero', z3.And(zero(z.num_images), zero(z.num_changes), *[zero(z.num_correct[j]) for j in (0, 1)], *[zero(z.sum_loss[j]) for j in (0, 1)],
                                            z3.BoolVal(set(z.sum_iou_experts) == set(names)), *[zero(z.sum_iou_experts[r]) for r in names]))
  s0 = dict(num_images=fresh_int('n0'), num_changes=fresh_int('ch0'), num_correct=T.fresh_array('co0', (2,), 'int32'), sum_loss=T.fresh_array('lo0', (2,)),
            sum_iou_experts={r: fresh_real('iou0') for r in names})
  st = m.AttackState(max_updates=3, rngs=dict(k=k0), **s0)
  calls = []
  def attack(a, b, r):
    obligation('the given images are attacked', z3.BoolVal(a is x and b is y and r['k'] is k0))
    return xm, dict(k=k1)
  def compute(a, b, r):
    i = 1 if a is xm else 0
    calls.append(i)
    obligation('evaluated on the images before and after', z3.BoolVal((a is xm or a is x) and b is y))
    return L[i], Y[i], Cc[i], dict(W[i])
  def overlap(a, b):
    return T.reduce_sum(T.elementwise(lambda p, q: core.to_real(Iou(core.num(p), core.num(q))), a, b), None)
  Iou = z3.Function(core.cur().fresh('Overlap'), z3.RealSort(), z3.RealSort(), z3.RealSort())   # stands for the contract of sum_intersection_over_union
  with use(m, sum_intersection_over_union=overlap):
   new, x_m, l0, lm, y0, ym, cw0, cwm = m.stateful_attack(st, x, y, valid, stateless_attack_fn=attack, compute_loss_predict_correct_cw_fn=compute)
  obligation('each evaluated once', z3.BoolVal(sorted(calls) == [0, 1]))
  obligation('attacked images and new keys returned', z3.BoolVal(x_m is xm and new.rngs['k'] is k1 and new.max_updates == 3))
  vb = T.full((B,), True, 'bool') if valid is None else (valid != 0)
  one = T.where(vb, 1., 0.)
  sc = lambda v: core.to_real(core.num(term(v)))
  n = core.to_real(B.t) if valid is None else total(one)
  obligation('counts the valid images', sc(new.num_images) == sc(s0['num_images']) + n)
  obligation('counts the changed predictions of valid images', sc(new.num_changes) == sc(s0['num_changes']) + total(T.where(vb, T.where(Y[0] != Y[1], 1., 0.), 0.)))
  for j in (0, 1):
    obligation('correct predictions of valid images, before and after', sc(new.num_correct[j]) == sc(s0['num_correct'][j]) + total(T.where(vb, Cc[j].astype('float32'), 0.)))
    obligation('loss of valid images, before and after', sc(new.sum_loss[j]) == sc(s0['sum_loss'][j]) + total(T.where(vb, L[j], 0.)))
  v3 = T.reshape(vb, (B, 1, 1))
  for r in names:
    a, b = [T.where(v3, w[r], 0.) for w in W]
    obligation('overlap of the chosen experts of valid images', sc(new.sum_iou_experts[r]) == sc(s0['sum_iou_experts'][r]) + sc(overlap(a, b)))
  b = idx_of(L[0])[0]
  v = core.to_bool(T.asarr(vb).el(b)) if hasattr(core, 'to_bool') else T.asarr(vb).el(b)
  for got, arrs in ((l0, L[0]), (lm, L[1]), (y0, Y[0]), (ym, Y[1])):
    g, w = core.to_real(core.num(T.asarr(got).el(b))), core.to_real(core.num(arrs.el(b)))
    obligation('results of valid images are returned', g == z3.If(v, w, 0))
  for i, cw in ((0, cw0), (1, cwm)):
    for r in names:
      e = (b, *idx_of(W[0][r])[1:])
      obligation('routing of valid images is returned', core.num(cw[r].el(*e)) == z3.If(v, core.num(W[i][r].el(*e)), 0))


@contract('C23', functions=[f'{TRAINER}.wrap_train_step_with_adversarial_attack'], max_paths=60)
def attacked_training_step():
  m = loader.load(TRAINER)
  U, eps = fresh_int('updates'), fresh_real('max_epsilon')
  aux = core.choose(2)
  log = []
  base = lambda s, i, l, *a, **k: (log.append((s, i, l, a, k)), 'out')[1]
  lo, me = fresh_real('loss'), T.fresh_array('aux', (T.new_dim('layers'),))
  def loss_fn(a, b):
    obligation('loss of outputs and labels', z3.BoolVal(a == 'logits' and b == 'labels'))
    return lo
  f = m.wrap_train_step_with_adversarial_attack(base, loss_fn, attack_auxiliary_loss=bool(aux), max_epsilon=eps, num_updates=U)
  if f is base:
    obligation('attacks only when asked to', z3.Or(U.t <= 0, eps.t <= 0)); return
  obligation('no attack without updates', z3.And(U.t > 0, eps.t > 0))
  def pgd(images=None, labels=None, rngs=None, *, max_epsilon, num_updates, apply_fn, loss_fn):
    obligation('attacks the images with the given limits', z3.And(z3.BoolVal(images == 'images' and labels == 'labels' and rngs == 'keys'), term(max_epsilon) == eps.t, term(num_updates) == U.t))
    obligation('attacks the model', z3.BoolVal(apply_fn('x', rngs='r') == ('model', {'params': 'params'}, 'x', {'rngs': 'r'})))
    v = loss_fn('logits', 'labels', {'auxiliary_loss': me})
    obligation('attacked loss', core.to_real(core.num(term(v))) == lo.t + (core.to_real(core.num(term(T.reduce_mean(me)))) if aux else 0))
    return 'attacked', 'newkeys'
  st = St(apply_fn=lambda v, x, **k: ('model', v, x, k), params='params', rngs='keys')
  with use(m, adversarial_attacks=ns(stateless_attack_pgd=pgd)):
    out = f(st, 'images', 'labels', 'more', extra=1)
  obligation('trains on the attacked images with the new keys', z3.BoolVal(out == 'out' and len(log) == 1 and log[0][1:] == ('attacked', 'labels', ('more',), dict(extra=1)) and log[0][0].rngs == 'newkeys' and log[0][0].params == 'params'))
