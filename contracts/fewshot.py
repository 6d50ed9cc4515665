"""C34: few-shot evaluation (vmoe/evaluate/fewshot.py)."""
import types as _types
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, fresh_obj, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from vc.seqs import SSeq
from contracts.train_step import use, fresh_key, split_key, St, Leaf, Obj

MOD = 'vmoe.evaluate.fewshot'
UTILS = 'vmoe.utils'
ns = _types.SimpleNamespace


# ------------------------------------------------------- products of matrices ----
class Mat:
  """A product of matrices, as the word of its factors (associativity is built in).

  Factors: ('a', array, transposed), ('q', eigensystem, transposed), ('d', row
  vector): multiplying by the diagonal matrix of the vector.
  """
  __vc_symbolic__ = True
  __array_priority__ = 1000

  def __init__(self, word, shape): self.word, self.shape = tuple(word), tuple(shape)

  ndim = property(lambda s: 2)

  @property
  def T(self):
    w = [f if f[0] == 'd' else (f[0], f[1], not f[2]) for f in reversed(self.word)]
    return Mat(w, self.shape[::-1])
  mT = T
  def transpose(self, *a):
    if a not in ((), (None,), (1, 0), ((1, 0),)): raise core.Unsupported('transpose of a product')
    return self.T

  def __matmul__(self, o):
    o = asmat(o)
    if not decide(term(self.shape[1]) == term(o.shape[0])): raise ValueError('matmul: shapes do not match')
    return Mat(self.word + o.word, (self.shape[0], o.shape[1]))
  def __rmatmul__(self, o): return asmat(o) @ self

  def __mul__(self, o):
    if isinstance(o, Mat) or not isinstance(o, T.SArr): raise core.Unsupported('elementwise product of matrices')
    if o.ndim == 1 or (o.ndim == 2 and decide(term(o.shape[0]) == 1)):      # columns scaled
      v = o if o.ndim == 1 else T.getitem(o, (0,))
      if not decide(term(v.shape[0]) == term(self.shape[1])): raise ValueError('scaling: shapes do not match')
      return Mat(self.word + (('d', v),), self.shape)
    if o.ndim == 2 and decide(term(o.shape[1]) == 1):      # rows scaled
      v = T.getitem(o, (slice(None), 0))
      if not decide(term(v.shape[0]) == term(self.shape[0])): raise ValueError('scaling: shapes do not match')
      return Mat((('d', v),) + self.word, self.shape)
    raise core.Unsupported('elementwise product of matrices')
  __rmul__ = __mul__

  def __truediv__(self, o): return self * (1. / o) if isinstance(o, T.SArr) else self._no()
  def _no(self, *a, **k): raise core.Unsupported('operation on a product of matrices')
  __add__ = __radd__ = __sub__ = __rsub__ = __getitem__ = __iter__ = __bool__ = _no


def asmat(x):
  if isinstance(x, Mat): return x
  x = T.asarr(x)
  if x.ndim != 2: raise core.Unsupported('product with an array that is not a matrix')
  return Mat((('a', x, False),), x.shape)


class Eig:
  """Assumed contract of eigh of a symmetric matrix A: q diag(eigs) qT == A, q qT == qT q == I."""
  def __init__(self, A):
    self.A, self.n = A, A.shape[0]
    self.eigs = T.fresh_array('eigs', (A.shape[0],))
    self.q = Mat((('q', self, False),), A.shape)


def pad(x, widths, mode='constant', constant_values=0):
  if isinstance(x, Mat): raise core.Unsupported('padding of a product')
  x = T.asarr(x)
  if x.ndim != 2 or [tuple(w) for w in widths] != [(0, 0), (0, 1)]: raise core.Unsupported('padding other than one column')
  return asmat(T.concatenate([x, T.full((x.shape[0], 1), constant_values, 'float32')], axis=1))


def std(x, axis=None, keepdims=False, ddof=0):
  if ddof: raise core.Unsupported('ddof')
  return T.sqrt(T.reduce_mean(T.square(x - T.reduce_mean(x, axis, keepdims=True)), axis, keepdims=keepdims))


def matmul(a, b): return asmat(a) @ asmat(b)


def eigh(A, *a, **k):
  if not isinstance(A, Mat): raise core.Unsupported('eigh')
  e = Eig(A)
  core.cur().__dict__.setdefault('eigs', []).append(e)
  return e.eigs, e.q


def generic(x, label):
  """Digits of an arbitrary position of x, inside its bounds."""
  idx = [tuple(T.ivar(a, label) for a in ax) for ax in x.axes]
  for v, ax in zip(idx, x.axes): assume(T.in_range(v, ax))
  return idx


def same_array(label, a, b):
  a, b = T.asarr(a), T.asarr(b)
  if a.ndim != b.ndim: return obligation(label, z3.BoolVal(False))
  obligation(label + ' (shape)', z3.And(*[term(x) == term(y) for x, y in zip(a.shape, b.shape)]))
  p = [z3.Int(core.cur().fresh('p')) for _ in a.shape]
  for x, n in zip(p, a.shape): assume(z3.And(x >= 0, x < term(n)))
  obligation(label, core.to_real(core.num(a.at_lin(*[wrap(x) for x in p]))) == core.to_real(core.num(b.at_lin(*[wrap(x) for x in p]))))


@contract('C34', functions=[f'{MOD}._precompute_cache', f'{MOD}._eig_fewshot_acc_fn'], max_paths=40)
def ridge_regression():
  """Any number of examples, features and classes, any features, labels and l2 > 0."""
  m = loader.load(MOD)
  N, D, C, M = T.new_dim('examples'), T.new_dim('features'), T.new_dim('classes'), T.new_dim('tests')
  x, xt = T.fresh_array('x', (N, D)), T.fresh_array('xt', (M, D))
  y, yt = T.fresh_array('y', (N,), 'int32'), T.fresh_array('yt', (M,), 'int32')
  l2 = fresh_real('l2')
  assume(l2.t > 0)
  preds, pred = [], T.fresh_array('pred', (M,), 'int32')
  def argmax(a, axis=None, **k):
    if not isinstance(a, Mat): raise core.Unsupported('argmax of something else')
    obligation('the best class of every test example', z3.BoolVal(axis in (1, -1)))
    preds.append(a)
    return pred
  core.assumption('assumed: associativity of matrix products; eigh(A) = (e, q) with A = q diag(e) q^T and q orthonormal, e >= 0 for a Gram matrix; hence q diag(1/(e + l2)) q^T = (A + l2 I)^-1; (x^T x + l2 I)^-1 x^T = x^T (x x^T + l2 I)^-1')
  J = Over(m.jnp, pad=pad, std=std, matmul=matmul, dot=matmul, argmax=argmax, linalg=Over(m.jnp.linalg, eigh=eigh),
           transpose=lambda a, *k: a.T, var=lambda *a, **k: T.square(std(*a, **k)))
  with use(m, jnp=J):
    cache = m._precompute_cache(x, y, C)
    for e in core.cur().eigs:
      assume_nonneg(e.eigs)
    acc = m._eig_fewshot_acc_fn(cache, xt, yt, l2)
  if len(preds) != 1: raise core.Unsupported('predictions not found')
  w = [f for f in preds[0].word]
  # what the word must be:  test . [x^T] q diag q^T [x^T] . targets
  es = core.cur().eigs
  if len(es) != 1: raise core.Unsupported('eigen-decompositions')
  e = es[0]
  atoms = [f for f in w if f[0] == 'a']
  kinds = [f[0] + ('T' if f[0] != 'd' and f[2] else '') for f in w]
  wide = kinds == ['a', 'aT', 'q', 'd', 'qT', 'a'] and [f[0] + ('T' if f[2] else '') for f in e.A.word] == ['a', 'aT']
  tall = kinds == ['a', 'q', 'd', 'qT', 'aT', 'a'] and [f[0] + ('T' if f[2] else '') for f in e.A.word] == ['aT', 'a']
  # wide and tall are equal by push-through; mixed forms would not solve the normal equations.
  obligation('weights solve the regularised normal equations (product of the right factors)', z3.BoolVal(wide or tall), hints={'detail': ' '.join(kinds)})
  if not (wide or tall): return
  mean = T.reduce_mean(x, 0, keepdims=True)
  sd = std(x, 0, keepdims=True) + 1e-5
  white = lambda a: T.concatenate([(a - mean) / sd, T.full((a.shape[0], 1), m.BIAS_CONSTANT, 'float32')], axis=1)
  gram = {id(f[1]): f[1] for f in e.A.word}
  obligation('the Gram matrix is of one array', z3.BoolVal(len(gram) == 1))
  mid = atoms[1][1]
  obligation('same array in the Gram matrix and the right-hand side', z3.BoolVal(id(mid) in gram))
  same_array('training features are whitened with their own statistics', mid, white(x))
  same_array('test features are whitened with the training statistics', atoms[0][1], white(xt))
  same_array('targets are +1 for the class and -1 elsewhere', atoms[-1][1], T.where(T.one_hot(y, C) != 0, 1., -1.))
  d = [f[1] for f in w if f[0] == 'd'][0]
  p = z3.Int(core.cur().fresh('p'))
  assume(z3.And(p >= 0, p < term(d.shape[0])))
  dv, ev = core.to_real(core.num(d.at_lin(wrap(p)))), core.to_real(core.num(e.eigs.at_lin(wrap(p))))
  obligation('scaled by 1 / (eigenvalue + l2)', dv * (ev + l2.t) == 1)
  hits = T.reduce_mean(T.where(pred == yt, 1., 0.), None)
  obligation('accuracy is the share of test examples with the right class', core.to_real(core.num(term(acc))) == core.to_real(core.num(term(hits))))


def assume_nonneg(e):
  p = z3.Int(core.cur().fresh('e'))
  v = e.at_lin(wrap(p))
  assume(z3.ForAll([p], v >= 0))


# ------------------------------------------------------------- features ---------
@contract('C34', functions=[f'{MOD}._fewshot_step', f'{UTILS}.tree_rngs_split'])
def one_step():
  m, u = loader.load(MOD), loader.load(UTILS)
  k = fresh_key('key')
  used = []
  variables, img, lab, val, feats = (object() for _ in range(5))
  def apply_fn(v, x, rngs=None, **kw):
    obligation('the model gets the variables and the images', z3.BoolVal(v is variables and x is img))
    used.append(rngs['k'])
    return feats, {}
  with use(u, jax=Over(u.jax, random=Over(u.jax.random, split=split_key))), use(m, vmoe=ns(utils=u)):
    st, f, l, v = m._fewshot_step(m.FewShotState(rngs=dict(k=k)), variables, img, lab, val, apply_fn)
  obligation('features, labels and mask of the batch', z3.BoolVal(f is feats and l is lab and v is val))
  nxt = st.rngs['k']
  obligation('random state advances', z3.And(z3.BoolVal(len(used) == 1), nxt.t != used[0].t, nxt.t != k.t, used[0].t != k.t))


class Feat:
  """Rows of one batch; rows[mask] are the rows where the mask holds."""
  __vc_symbolic__ = True
  def __init__(self, kind, i, mask=None, cast=False): self.kind, self.i, self.mask, self.cast = kind, i, mask, cast
  def astype(self, dt, *a, **k):
    if self.kind != 'mask' or getattr(T.dtype_of(dt), 'name', None) != 'bool': raise core.Unsupported('cast')
    return Feat('mask', self.i, None, True)
  def __getitem__(self, k):
    if not (isinstance(k, Feat) and k.kind == 'mask' and k.cast and k.mask is None): raise core.Unsupported('index of a batch')
    obligation('rows are selected by the mask of their own batch', term(k.i) == term(self.i))
    return Feat(self.kind, self.i, k)


def _rep_inv(i, n, st):
  c = core.cur()
  out = [('state after the batches so far', st['state'].t == c.S(term(i)))]
  for name, kind in (('features_list', 'feat'), ('labels_list', 'label')):
    l = st[name]
    if isinstance(l, list): l = SSeq(len(l), lambda j, l=l: l[j if isinstance(j, int) else 0])
    out.append((f'one entry per batch ({kind})', term(loader.b_len(l)) == term(i)))
    j = c.rep_j
    if isinstance(l, SSeq) and decide(z3.And(j.t >= 0, j.t < term(i))):
      e = l.get(j)
      out.append((f'the valid rows of every batch ({kind})', z3.And(z3.BoolVal(e.kind == kind and e.mask is not None), term(e.i) == j.t)))
  return out


def _rep_havoc(i, n, st):
  c = core.cur()
  mk = lambda kind: SSeq(i, lambda j: Feat(kind, j, Feat('mask', j, None, True)), 'list')
  return dict(state=Leaf(c.S(term(i))), features_list=mk('feat'), labels_list=mk('label'))


loops.loop(MOD, '_compute_representation#0', vars=('state', 'features_list', 'labels_list'), inv=_rep_inv, havoc=_rep_havoc, inplace=('features_list', 'labels_list'))


@contract('C34', functions=[f'{MOD}._compute_representation'], max_paths=40)
def representation():
  """Any number of batches."""
  m = loader.load(MOD)
  c = core.cur()
  c.S = z3.Function(c.fresh('StateAfter'), z3.IntSort(), Obj)
  n = fresh_int('batches', 1)
  c.rep_j = fresh_int('j', 0, n)
  variables = object()
  asn = lambda x, dtype=None, **k: x
  def rep(state, v, images, labels, valid):
    obligation('the model variables', z3.BoolVal(v is variables))
    obligation('image, label and mask of one batch', z3.And(z3.BoolVal((images.kind, labels.kind, valid.kind) == ('image', 'label', 'mask')), term(images.i) == term(labels.i), term(images.i) == term(valid.i)))
    obligation('the state of the previous batches', state.t == c.S(term(images.i)))
    return Leaf(c.S(term(images.i) + 1)), Feat('feat', images.i), labels, valid
  ds = SSeq(n, lambda i: {'image': Feat('image', i), 'label': Feat('label', i), m.VALID_KEY: Feat('mask', i)})
  def concat(l, axis=0):
    obligation('concatenated along the examples', z3.BoolVal(axis == 0))
    if not isinstance(l, SSeq): raise core.Unsupported('concatenation')
    return l
  with use(m, np=Over(m.np, asarray=asn, array=asn, concatenate=concat)):
    st, f, l = m._compute_representation(rep, Leaf(c.S(z3.IntVal(0))), variables, ds)
  obligation('state of all batches', st.t == c.S(n.t))
  for x, kind in ((f, 'feat'), (l, 'label')):
    obligation('every batch contributes once', term(x.n) == n.t)
    e = x.get(c.rep_j)
    obligation(f'the valid rows of every batch, in order ({kind})', z3.And(z3.BoolVal(e.kind == kind and e.mask is not None and e.mask.kind == 'mask'), term(e.i) == c.rep_j.t))


# ----------------------------------------------------------- choice of shots -----
class Rows:
  __vc_symbolic__ = True
  def __init__(self, of, idx): self.of, self.idx = of, idx


@contract('C34', functions=[f'{MOD}._compute_fewshot_metrics'], bounded='at most 3 classes, 2 shot numbers, 2 regularisers', max_paths=40)
def shots():
  m = loader.load(MOD)
  K = core.choose(4)
  shots_ = [5, 2][:1 + core.choose(2)]
  l2s = [4., .5][:1 + core.choose(2)]
  seeds, gens = [], []
  variables, seed = object(), fresh_int('seed', 0)
  tr, te = object(), object()
  class Data:
    """Features or labels of the training or test set."""
    __vc_symbolic__ = True
    def __init__(self, kind, of): self.kind, self.of = kind, of
    def __eq__(self, o):
      if self.kind != 'label': raise core.Unsupported('comparison of features')
      return ('labels equal', self.of, o)
    __hash__ = object.__hash__
    def __getitem__(self, idx): return Rows(self, idx)
  calls = []
  def rep(fn, st, v, it):
    calls.append((fn, st, v, it))
    of = 'train' if it is tr else 'test'
    return ('state', st), Data('feat', of), Data('label', of)
  class Class:
    """Positions of one class."""
    __vc_symbolic__ = True
    def __init__(self, c, perm=None, cut=None): self.c, self.perm, self.cut = c, perm, cut
    def __getitem__(self, s):
      if s == 0 and self.perm is None: return self
      if isinstance(s, slice) and s.start in (None, 0) and s.step in (None, 1) and self.cut is None: return Class(self.c, self.perm, s.stop)
      raise core.Unsupported('selection of positions')
  def where(cond):
    obligation('positions by training label', z3.BoolVal(isinstance(cond, tuple) and cond[:2] == ('labels equal', 'train')))
    return (Class(cond[2]),)
  class Rng:
    def __init__(self, s): self.s = s
    def permutation(self, x): return Class(x.c, self)
  def default_rng(s):
    seeds.append(s)
    return Rng(s)
  fits, evals = [], []
  def pre(x, y, k):
    fits.append((x, y, k))
    return ('cache', len(fits) - 1)
  accs = {}
  def ev(cache, x, y, l2):
    a = fresh_real('acc')
    evals.append((cache, x, y, l2, a))
    return a
  with use(m, _compute_representation=rep, _precompute_cache=pre, _eig_fewshot_acc_fn=ev,
           np=Over(m.np, random=ns(default_rng=default_rng), where=where, concatenate=lambda l, axis=0: list(l), array=lambda x: x, asarray=lambda x: x)):
    res = m._compute_fewshot_metrics('fn', shots_, l2s, K, 's0', variables, tr, te, seed)
  obligation('train and test features computed once each with the same model', z3.BoolVal([(c[0], c[2], c[3]) for c in calls] == [('fn', variables, tr), ('fn', variables, te)]))
  obligation('random state continues from train to test', z3.BoolVal(calls[0][1] == 's0' and calls[1][1] == ('state', 's0')))
  obligation('examples chosen by the given seed', z3.And(z3.BoolVal(len(seeds) >= 1), *[term(s) == seed.t for s in seeds]))
  obligation('one fit per shot number', z3.BoolVal(len(fits) == len(shots_)))
  for s, (x, y, k) in zip(shots_, fits):
    obligation('fit on training features with their own labels', z3.BoolVal(isinstance(x, Rows) and isinstance(y, Rows) and x.idx is y.idx and (x.of.kind, x.of.of, y.of.kind, y.of.of) == ('feat', 'train', 'label', 'train') and k == K))
    obligation('every class once', z3.BoolVal([c.c for c in x.idx] == list(range(K))))
    obligation('randomly permuted', z3.BoolVal(all(c.perm is not None for c in x.idx)))
    obligation('at most shot examples of every class', z3.BoolVal(all(c.cut == s for c in x.idx)))
  obligation('every regulariser with every fit', z3.BoolVal(sorted((e[0][1], e[3]) for e in evals) == sorted((i, l) for i in range(len(shots_)) for l in l2s)))
  obligation('one result per shot number and regulariser', z3.BoolVal(set(res) == {(s, l) for s in shots_ for l in l2s}))
  for cache, x, y, l2, a in evals:
    obligation('evaluated on the test features and labels', z3.BoolVal(isinstance(x, Data) and isinstance(y, Data) and (x.kind, x.of, y.kind, y.of) == ('feat', 'test', 'label', 'test')))
    obligation('result of that shot number and regulariser', term(res[shots_[cache[1]], l2]) == a.t)


@contract('C34', functions=[f'{MOD}._find_best_l2_reg'], bounded='at most 2 data sets, 2 shot numbers and 3 regularisers', max_paths=400)
def best_regulariser():
  m = loader.load(MOD)
  R = 1 + core.choose(3)
  nd = 1 + core.choose(2)
  shots_ = [1, 5][:1 + (core.choose(2) if nd == 1 else 0)]
  l2s = [4., .5, 100.][:R]
  res = {f'd{d}': {(s, l): fresh_real(f'acc{d}{s}{i}') for s in shots_ for i, l in enumerate(l2s)} for d in range(nd)}
  for d in res.values():
    for s in shots_:
      if R > 1: assume(z3.Distinct(*[d[s, l].t for l in l2s]))
  import functools, numpy as np
  def argsort(a, *k, **kw):
    if not any(core.is_sym(x) for x in a): return np.argsort(a, *k, **kw)
    if k or kw: raise core.Unsupported('argsort options')
    return np.asarray(sorted(range(len(a)), key=functools.cmp_to_key(lambda i, j: 0 if i == j else -1 if decide(term(a[i]) < term(a[j])) else 1)))
  with use(m, np=Over(m.np, argsort=argsort)):
    best = m._find_best_l2_reg(res, shots_, l2s)
  obligation('one per shot number', z3.BoolVal(sorted(best) == sorted(shots_)))
  for s in shots_:
    rank = [z3.Sum(*[z3.If(d[s, l].t > d[s, q].t, 1, 0) for d in res.values() for q in l2s]) if R * nd > 1 else z3.IntVal(0) for l in l2s]
    obligation('the best total rank over all data sets', z3.Or(*[z3.And(z3.BoolVal(best[s] == l), *[r >= q for q in rank]) for l, r in zip(l2s, rank)]))


# ------------------------------------------------------------ reported -----------
@contract('C34', functions=[f'{MOD}.FewShotPeriodicAction._make_callback_fn', f'{MOD}._find_best_l2_reg'], bounded='at most 2 data sets, 2 seeds and 2 shot numbers', max_paths=200)
def reported():
  """Accuracies and the step are arbitrary."""
  m = loader.load(MOD)
  nd, seeds = 1 + core.choose(2), 1 + core.choose(2)
  fold, main = bool(core.choose(2)), [None, ('cars', 5)][core.choose(2)]
  shots_, l2s = [1, 5], [4., .5]
  resets, runs, log, state_args = [], [], [], []
  class DS:
    def __init__(self, n): self.n = n
    def reset(self): resets.append(self.n)
  info = {n: (DS(n + '/tr'), DS(n + '/te'), object()) for n in ['cars', 'pets'][:nd]}
  accs = {}
  step = fresh_int('step', 0)
  variables = object()
  def compute(fn, sh, l2, classes, state, v, tr, te, seed):
    obligation('shots, regularisers, model', z3.BoolVal(fn == 'rep' and sh is shots_ and l2 is l2s and v is variables))
    obligation('training and test part of one data set', z3.BoolVal(any((tr, te, classes) == (('it', a), ('it', b), c) for a, b, c in info.values())))
    n = tr[1].n[:-3]
    r = {(s, l): fresh_real(f'acc_{n}_{s}_{l}') for s in shots_ for l in l2s}
    runs.append((n, state, seed, r))
    return r
  best = {1: 4., 5: .5}
  seen = []
  def find(results, sh, l2):
    seen.append(dict(results))
    obligation('the best regulariser is chosen among all results', z3.BoolVal(sh is shots_ and l2 is l2s))
    return dict(best)
  hashes = []
  def hash_(t):
    hashes.append(t)
    return fresh_int('hash')
  class W:
    def write_scalars(self, s, d): log.append((s, d))
  S = Over(m.jax, random=Over(m.jax.random, PRNGKey=lambda s: ('key', s), fold_in=lambda k, x: ('fold', k, x), split=lambda k, n: [('part', k, i) for i in range(n)]),
           experimental=ns(pjit=ns(pjit=lambda f=None, **k: (lambda g: g) if f is None else f)))
  core.assumption('assumed: hash of a tuple of integers is a function of them')
  extra = object()
  with use(m, jax=S, _compute_fewshot_metrics=compute, _find_best_l2_reg=find, time=ns(time=lambda: 0.)):
    m.__dict__['hash'] = hash_
    try:
      pf = ns(data=ns(pjit_utils=ns(prefetch_to_device=lambda iterator, size: ('it', iterator)), input_pipeline=m.vmoe.data.input_pipeline), utils=None)
      with use(m, vmoe=pf):
        cb = m.FewShotPeriodicAction._make_callback_fn(ns(last_metrics=None), representation_fn='rep', shots=shots_, l2_regs=l2s, datasets_info=info, prefetch_to_device=2, rng_keys=('a', 'b'), seed=3,
                                                       seed_fold_in_step=fold, seeds_per_step=seeds, metric_writer=W(), report_progress=None, report_progress_name='fewshot', main_task=main, main_task_prefix='0')
        cb(step, None, variables, flops=extra, none=None)
    finally: del m.__dict__['hash']
  obligation('every data set once with every seed', z3.BoolVal(sorted(r[0] for r in runs) == sorted(list(info) * seeds)))
  obligation('iterators are reset after every use', z3.BoolVal(sorted(resets) == sorted([n + s for n in info for s in ('/tr', '/te')] * seeds)))
  mentions = lambda x, y: x is y or (isinstance(x, (tuple, list)) and any(mentions(q, y) for q in x))
  for n, st, sd, r in runs:
    obligation('own random key per name', z3.BoolVal(set(st.rngs) == {'a', 'b'} and st.rngs['a'] != st.rngs['b']))
    obligation('the step enters the random state exactly when asked', z3.BoolVal(mentions(st.rngs['a'], step) == fold))
  obligation('the step enters the choice of examples exactly when asked', z3.BoolVal(all(mentions(h, step) == fold for h in hashes)))
  by = {}
  for n, st, sd, r in runs: by.setdefault(n, []).append((st, r))
  for n, l in by.items():
    if len(l) > 1: obligation('different random states for different seeds', z3.BoolVal(repr(l[0][0].rngs) != repr(l[1][0].rngs)))
  obligation('reported once for the given step', z3.And(z3.BoolVal(len(log) == 1), term(log[0][0]) == step.t))
  d = log[0][1]
  for s in shots_: obligation('the chosen regulariser is reported', z3.BoolVal(d.get(f'fewshot/{s}shot_best_l2') == best[s]))
  for n in info:
    for i, (st, r) in enumerate(by[n]):
      name = n if seeds == 1 else f'{n}-seed-{i}'
      obligation('all results take part in the choice', z3.BoolVal(seen[0].get(name) is r))
      for s in shots_:
        v = d.get(f'fewshot/{name}/{s}shot')
        obligation('accuracy with the chosen regulariser', z3.BoolVal(False) if v is None else term(v) == r[s, best[s]].t)
  if main:
    v = d.get('0/cars/5shot')
    tot = sum([r[5, best[5]].t for st, r in by['cars']])
    obligation('main task is the mean over seeds', z3.BoolVal(False) if v is None else core.to_real(core.num(term(v))) * len(by['cars']) == tot)
  obligation('further values passed on', z3.BoolVal(d.get('flops') is extra and 'none' not in d))
