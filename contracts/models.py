"""C32: models (vmoe/nn/vit_moe.py, vit_moe_ensemble.py, moe.sparse_moe_spmd): layers, groups, options, auxiliary losses."""
import types as _types
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_real, fresh_int, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use
from contracts.ensembles import Flat, t

VIT, ENS, MOE = 'vmoe.nn.vit_moe', 'vmoe.nn.vit_moe_ensemble', 'vmoe.moe'
ns = _types.SimpleNamespace
lin = T.dim_term
II, RR = z3.IntSort(), z3.RealSort()


def eqv(a, b):
  """The same option value (any of them may be symbolic)."""
  if a is b: return z3.BoolVal(True)
  if isinstance(a, dict) and isinstance(b, dict):
    return z3.And(z3.BoolVal(set(a) == set(b)), *[eqv(v, b[k]) for k, v in a.items() if k in b])
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return z3.And(z3.BoolVal(len(a) == len(b)), *[eqv(p, q) for p, q in zip(a, b)])
  if hasattr(a, 't') or hasattr(b, 't'):
    if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)): return z3.BoolVal(False)
    p, q = term(a), term(b)
    if z3.is_bool(p) != z3.is_bool(q): return z3.BoolVal(False)
    if p.sort() != q.sort(): p, q = core.to_real(p), core.to_real(q)
    return p == q
  return z3.BoolVal(bool(a == b))


# -- one expert layer.
@contract('C32', functions=[f'{VIT}.MlpMoeBlock.__call__'])
def groups():
  """Any batch, tokens, group size (dividing the tokens of the batch): every token keeps its place."""
  V = loader.load(VIT)
  c = core.cur()
  c.transposed = []
  B, Tk, H, O = [T.new_dim(n) for n in ('B', 'T', 'H', 'O')]
  G, s = fresh_int('G', 1), fresh_int('s', 1)
  b, tk, h, o = lin(B), lin(Tk), lin(H), lin(O)
  assume(G.t * s.t == b * tk)
  c.sizes = [G.t, b, tk, h, s.t]
  c.same_size = [(G.t * s.t * h, b * tk * h), (G.t * s.t * o, b * tk * o)]
  X, Y = [z3.Function(c.fresh(n), II, RR) for n in 'xy']
  m = object.__new__(V.MlpMoeBlock)
  det, wide, rate = core.fresh_bool('deterministic'), fresh_int('mlp_dim', 1), fresh_real('rate')
  m.group_size, m.mlp_dim, m.dropout_rate, m.dtype, m.deterministic = s, wide, rate, 'dt', det
  seen = {}
  m.create_router = lambda: (lambda x: (seen.__setitem__('router', x), ('dispatcher', {'auxiliary_loss': 3}))[1])
  m.create_split_rngs = lambda: 'split'
  def spmd(target, has_aux=False, variable_axes=None, split_rngs=None, methods=None):
    seen['lift'] = (target, has_aux, dict(variable_axes), split_rngs)
    def make(**kw):
      seen['layer'] = kw
      def layer(d, x):
        seen['in'] = (d, x)
        return Flat((G, s, O), Y)
      return layer
    return make
  x = Flat((B, Tk, H), X)
  with use(V, vmoe=ns(moe=ns(sparse_moe_spmd=spmd), utils=None)): y, metrics = m(x)
  if not {'router', 'lift', 'layer', 'in'} <= set(seen): raise core.Unsupported('expert layer made in another way')
  d, z = seen['in']
  shape = lambda a, *want: z3.And(z3.BoolVal(a.ndim == 3), *[t(p) == q for p, q in zip(a.shape, want)])
  obligation('groups of the configured size', z3.And(shape(z, G.t, s.t, h), shape(seen['router'], G.t, s.t, h)))
  obligation('output of every token', shape(y, b, tk, o))
  iv = lambda n, hi: (lambda v: (assume(z3.And(v >= 0, v < hi)), v)[1])(z3.Int(c.fresh(n)))
  bi, ti, hi, oi, g, j = iv('b', b), iv('t', tk), iv('h', h), iv('o', o), iv('g', G.t), iv('j', s.t)
  assume(g * s.t + j == bi * tk + ti)
  for k, n in ((hi, h), (oi, o)): assume((g * s.t + j) * n + k == (bi * tk + ti) * n + k)
  obligation('tokens in order', z3.And(z.el(g, j, hi) == x.el(bi, ti, hi), seen['router'].el(g, j, hi) == x.el(bi, ti, hi)))
  obligation('outputs in order', y.el(bi, ti, oi) == Flat((G, s, O), Y).el(g, j, oi))
  kw = seen['layer']
  obligation('dispatched as the router says', z3.BoolVal(d == 'dispatcher'))
  obligation('metrics of the router', z3.BoolVal(metrics == {'auxiliary_loss': 3}))
  obligation('experts as configured', z3.And(z3.BoolVal(seen['lift'][0] is V.MlpBlock and not seen['lift'][1]),
             as_configured(V.MlpBlock, kw, dict(mlp_dim=wide, dropout_rate=rate, dtype='dt', deterministic=det, name='Mlp'))))
  obligation('parameters per expert', z3.BoolVal(seen['lift'][2].get('params') == 0 and seen['lift'][3] == 'split'))


@contract('C32', functions=[f'{VIT}.MlpMoeBlock.create_router', f'{ENS}.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.create_router'], max_paths=200)
def router_options():
  """Every combination of options."""
  ens = core.choose(2)
  M = loader.load(ENS if ens else VIT)
  m = object.__new__(M.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter if ens else M.MlpMoeBlock)
  det, over, named, extra = bool(core.choose(2)), [None, True, False][core.choose(3)], core.choose(2), core.choose(2)
  if ens and named: raise core.PathEnd()
  E = fresh_int('experts', 1)
  size = [None, 0, -1, 1, 4][core.choose(5)] if ens else None
  m.num_experts, m.deterministic, m.dtype, m.ensemble_size = E, det, 'dt', size
  r = {} if extra == 0 else dict(noise_std=2., dispatcher={'a': 1})
  if over is not None: r['deterministic'] = over
  if named: r['name'] = 'Chosen'
  m.router = r or None
  keep = dict(r)
  made = []
  def cls(n): return lambda **kw: (made.append((n, kw)), 'made')[1]
  default = cls('NoisyTopExpertsPerItemRouter')
  if ens: over_ = dict(NoisyTopExpertsPerItemEnsembleRouter=cls('ensemble'))
  else: over_ = dict(routing=ns(NoisyTopExpertsPerItemRouter=default, Chosen=cls('Chosen')))
  with use(M, **over_):
    try: out = m.create_router()
    except ValueError:
      obligation('only impossible ensemble sizes are rejected', z3.BoolVal(bool(ens) and (size is None or size <= 0))); return
  if len(made) != 1: raise core.Unsupported('router made in another way')
  n, kw = made[0]
  obligation('possible ensemble size', z3.BoolVal(not ens or (size is not None and size > 0)))
  obligation('the configured router', z3.BoolVal(out == 'made' and n == ('ensemble' if ens else 'Chosen' if named else 'NoisyTopExpertsPerItemRouter')))
  want = {k: v for k, v in keep.items() if k != 'name'}
  want.update(dtype='dt', name='Router', deterministic=det if over is None else over)
  if ens: want['ensemble_size'] = size
  obligation('as many experts as the layer', term(kw.get('num_experts', 0)) == E.t)
  kw = {k: v for k, v in kw.items() if k != 'num_experts'}
  obligation('deterministic as the layer unless the options say otherwise', z3.BoolVal(kw.get('deterministic') == want['deterministic']))
  obligation('every option, and no other', z3.BoolVal(kw == want))
  obligation('configuration kept', z3.BoolVal((m.router or {}) == keep))


@contract('C32', functions=[f'{VIT}.MlpMoeBlock.create_split_rngs'])
def rng_options():
  V = loader.load(VIT)
  m = object.__new__(V.MlpMoeBlock)
  k = core.choose(8)
  m.split_rngs, want = [(True, (1, 1)), (False, (0, 0)), (('params',), (1, 0)), (['dropout'], (0, 1)), (('params', 'dropout'), (1, 1)), ((), (0, 0)), (('other',), (0, 0)), ({'dropout', 'params'}, (1, 1))][k]
  r = m.create_split_rngs()
  obligation('randomness of its own for every expert exactly where asked', z3.BoolVal(bool(r['params']) == bool(want[0]) and bool(r['dropout']) == bool(want[1])))


# -- the encoder: any number of blocks.
class Val:
  """Opaque array of an uninterpreted sort, with a shape."""
  __vc_symbolic__ = True
  def __init__(self, tm, shape=('B', 'T', 'H')): self.t, self.shape, self.ndim = tm, shape, 3


SORT = {}
def S(): return core.sort('Tokens')


class Metrics:
  """Metrics of the expert blocks among the first blocks, by name."""
  __vc_symbolic__ = True

  def __init__(self, g, upto): self.g, self.upto, self.set, self.final = g, upto, [], {}

  def __setitem__(self, k, v):
    if k == 'auxiliary_loss': self.final[k] = v
    else: self.set.append((k, v))
  def __getitem__(self, k): return self.final[k]
  def __contains__(self, k): return k in self.final

  def values(self):
    if self.set or self.final: raise core.Unsupported('metrics read before the last block')
    return Values(self)
  def items(self): raise core.Unsupported('items of the metrics')


class Values:
  def __init__(self, m): self.m = m
  def __vc_comp__(self, kind, cond, f): return Summands(self.m, cond, f)


class Summands:
  def __init__(self, m, cond, f): self.m, self.cond, self.f = m, cond, f
  def __vc_sum__(self, start=0):
    if self.cond is not None: raise core.Unsupported('sum of some metrics')
    g = self.m.g
    b = T.bvar(g.N.atoms[0], 'blk')
    v = term(self.f(LayerMetrics(g, b)))
    return wrap(T.make_sum([b], g.N.atoms, z3.If(g.P(b), v, z3.RealVal(0))) + core.to_real(term(start)))


class LayerMetrics:
  """Metrics of one expert block."""
  __vc_symbolic__ = True
  def __init__(self, g, i): self.g, self.i = g, i
  def __getitem__(self, k):
    if k != 'auxiliary_loss': raise core.Unsupported('other metrics')
    return wrap(self.g.aux(self.i, self.g.inp(self.i)))
  def __eq__(self, o): raise core.Unsupported('comparison of metrics')
  __hash__ = None


class Layers:
  """The configured expert blocks: any set."""
  __vc_symbolic__ = True
  def __init__(self, g): self.g = g
  def __contains__(self, i): return decide(self.g.P(term(i)))
  def __bool__(self): return decide(self.g.some)


class Ghost: pass


def ghost(ens, embed):
  """H(i) is what the blocks before block i make of the tokens."""
  c = core.cur()
  g = Ghost()
  g.ens = ens
  g.N = T.new_dim('N')
  g.P = z3.Function(c.fresh('isMoe'), II, z3.BoolSort())
  s = S()
  g.H = z3.Function(c.fresh('H'), II, s)
  g.moe, g.dense = [z3.Function(c.fresh(n), II, s, s) for n in ('Expert', 'Dense')]
  g.rep = z3.Function(c.fresh('Repeat'), s, s)
  g.aux = z3.Function(c.fresh('aux'), II, s, RR)
  g.before = z3.Function(c.fresh('anyBefore'), II, z3.BoolSort())   # an expert block before block i
  g.emb, g.drop, g.norm = [z3.Function(c.fresh(n), s, s) for n in ('Embed', 'Dropout', 'Norm')]
  i = z3.Int(c.fresh('i'))
  g.some = z3.Bool(c.fresh('some'))
  x0 = z3.Const(c.fresh('x'), s)
  g.x0 = x0
  assume(g.H(0) == g.drop(g.emb(x0) if embed else x0))
  inp = z3.If(g.before(i), g.H(i), g.rep(g.H(i))) if ens else g.H(i)
  g.inp = lambda k: z3.substitute(inp, (i, k))
  assume(z3.ForAll([i], z3.Implies(i >= 0, g.H(i + 1) == z3.If(g.P(i), g.moe(i, inp), g.dense(i, g.H(i)))), patterns=[g.H(i + 1)]))
  assume(z3.Not(g.before(0)))
  assume(z3.ForAll([i], z3.Implies(i >= 0, g.before(i + 1) == z3.Or(g.before(i), g.P(i))), patterns=[g.before(i + 1)]))
  return g


GH = {}


def as_configured(cls, got, want):
  """The options, where those not given have the default of the class."""
  d = {}
  for k in reversed(cls.__mro__):
    for a in getattr(k, '__annotations__', {}):
      if a in k.__dict__: d[a] = k.__dict__[a]
  full = lambda k: {a: b for a, b in {**d, **k}.items() if a not in ('parent',)}
  return eqv(full(got), full(want))


def block_classes(g, opts, M, real):
  """Stand-ins for EncoderBlock, MlpBlock and MlpMoeBlock: recorded options, opaque effect."""
  class Mlp:
    def __init__(self, **kw): self.kw = kw
  class Expert:
    def __init__(self, **kw): self.kw = kw
  class Block:
    def __init__(self, **kw): self.kw = kw
    def __call__(self, x):
      kw = dict(self.kw)
      mlp = kw.pop('mlp_block')(dtype=kw.get('dtype'), deterministic=kw.get('deterministic'))
      name = kw.pop('name')
      i = GH['i']
      if name != f'encoderblock_{i!r}': raise core.Unsupported(f'name of a block: {name}')
      i = term(i)
      obligation('block as configured', as_configured(real[2], kw, opts['block']))
      if isinstance(mlp, Expert):
        obligation('experts as configured', as_configured(real[1], mlp.kw, opts['moe']))
        return Val(g.moe(i, x.t)), LayerOut(i, x.t)
      obligation('dense block as configured', as_configured(real[0], mlp.kw, opts['mlp']))
      return Val(g.dense(i, x.t))
  return Mlp, Expert, Block


class LayerOut:
  def __init__(self, i, x): self.i, self.x = i, x


def encoder_loop(module, where):
  def havoc(i, n, st):
    g = GH['g']
    GH['i'] = i
    r = dict(x=Val(g.H(term(i))), metrics=Metrics(g, i))
    if g.ens: r['is_first_moe_mlp_layer'] = wrap(z3.Not(g.before(term(i))))
    return r
  def inv(i, n, st):
    g = GH['g']
    x, m = st.get('x'), st.get('metrics')
    if not isinstance(x, Val): raise core.Unsupported('state of the encoder')
    out = [('the tokens are what the blocks so far make of them', x.t == g.H(term(i)))]
    if isinstance(m, Metrics):
      out.append(('metrics of the blocks so far', metrics_ok(g, m, i)))
    elif not (isinstance(m, dict) and not m): raise core.Unsupported('metrics of the encoder')
    if g.ens:
      f = st.get('is_first_moe_mlp_layer')
      if f is None: raise core.Unsupported('state of the encoder')
      f = z3.BoolVal(f) if isinstance(f, bool) else term(f)
      out.append(('members are made once', f == z3.Not(g.before(term(i)))))
    return out
  loops.loop(module, where, vars=['x', 'metrics', 'is_first_moe_mlp_layer'], havoc=havoc, inv=inv)


def metrics_ok(g, m, i):
  """The entries added by the block just run: its own metrics exactly if it is an expert block."""
  if m.upto is i: return z3.BoolVal(not m.set)
  last = m.upto            # the block that just ran
  P = g.P(term(last))
  if not m.set: return z3.Not(P)
  ok = len(m.set) == 1 and m.set[0][0] == f'encoderblock_{last!r}' and isinstance(m.set[0][1], LayerOut)
  return z3.And(z3.BoolVal(ok), P, m.set[0][1].i == term(last), m.set[0][1].x == g.inp(term(last))) if ok else z3.BoolVal(False)


encoder_loop(VIT, 'EncoderMoe.__call__#0')
encoder_loop(ENS, 'EncoderMoeEnsemble.__call__#0')


@contract('C32', functions=[f'{VIT}.EncoderMoe.__call__', f'{ENS}.EncoderMoeEnsemble.__call__'], max_paths=120)
def encoder():
  """Any number of blocks, any set of them with experts, any tokens."""
  ens = core.choose(2)
  core.cur().linear_decide = True
  V = loader.load(VIT)
  M = loader.load(ENS) if ens else V
  embed = bool(core.choose(2))
  g = ghost(bool(ens), embed)
  GH['g'] = g
  qk, det = core.fresh_bool('qk'), core.fresh_bool('deterministic')
  e = object.__new__(M.EncoderMoeEnsemble if ens else M.EncoderMoe)
  E, wide, heads, rate, att, experts, group, rate2 = [fresh_int(n, 1) for n in ('members', 'mlp_dim', 'heads')] + [fresh_real('rate'), fresh_real('attention_rate')] + [fresh_int('experts', 1), fresh_int('group', 1)] + [fresh_real('expert_rate')]
  moe = dict(layers=Layers(g), num_experts=experts, group_size=group)
  own = core.choose(2)        # options of the experts that differ from those of the dense blocks
  if own: moe.update(dropout_rate=rate2, mlp_dim=fresh_int('expert_mlp_dim', 1))
  if ens: moe['ensemble_size'] = E
  keep = dict(moe)
  e.num_layers, e.mlp_dim, e.num_heads, e.dropout_rate, e.attention_dropout_rate, e.attention_qk_norm = wrap(lin(g.N)), wide, heads, rate, att, qk
  e.moe, e.deterministic, e.dtype, e.position_emb = moe, det, 'dt', None if embed else dict(name='none')
  common = dict(dtype='dt', deterministic=det)
  opts = dict(block=dict(num_heads=heads, dropout_rate=rate, attention_dropout_rate=att, attention_qk_norm=qk, **common),
              mlp=dict(mlp_dim=wide, dropout_rate=rate, name='Mlp', **common),
              moe={**dict(mlp_dim=wide, dropout_rate=rate, name='Moe', **common), **{k: v for k, v in keep.items() if k != 'layers'}})
  Mlp, Expert, Block = block_classes(g, opts, M, (V.MlpBlock, M.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter if ens else V.MlpMoeBlock, V.EncoderBlock))
  def fn(f): return lambda x: Val(f(x.t))
  def dropout(*a, deterministic=None, **kw):
    rate_ = a[0] if a else kw.get('rate')
    obligation('dropout as configured', z3.And(eqv(rate_, rate), eqv(deterministic, det)))
    return fn(g.drop)
  nn = dict(Dropout=dropout, LayerNorm=lambda **kw: fn(g.norm))
  def repeat(x, n, axis=None):
    obligation('one copy per member, side by side', z3.And(eqv(n, E), z3.BoolVal(axis == 0)))
    return Val(g.rep(x.t))
  pos = lambda **kw: fn(g.emb)
  x = Val(g.x0)
  cm = [use(V, EncoderBlock=Block, MlpBlock=Mlp, MlpMoeBlock=Expert, AddPositionEmbs=pos, nn=Over(V.nn, **nn))]
  if ens: cm.append(use(M, MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter=Expert, nn=Over(M.nn, **nn), jnp=Over(M.jnp, repeat=repeat)))
  import contextlib
  with contextlib.ExitStack() as st:
    for k in cm: st.enter_context(k)
    y, metrics = e(x)
  N = lin(g.N)
  obligation('all blocks, then the norm', y.t == g.norm(g.H(N)))
  b = T.bvar(g.N.atoms[0], 'blk')
  want = T.make_sum([b], g.N.atoms, z3.If(g.P(b), g.aux(b, g.inp(b)), z3.RealVal(0)))
  obligation('auxiliary loss is the sum over the expert blocks', core.to_real(term(metrics['auxiliary_loss'])) == want)
  obligation('configuration kept', z3.And(z3.BoolVal(e.moe is moe), eqv(moe, keep)))


# -- the experts.
@contract('C32', functions=[f'{MOE}.sparse_moe_spmd'], max_paths=40)
def experts():
  """Every expert runs on what was dispatched to it, and the outputs are combined; for any expert function."""
  M = loader.load(MOE)
  aux, nargs, tree = bool(core.choose(2)), 1 + core.choose(2), bool(core.choose(2))
  seen = {}
  def lift_transform(wrapper, target, methods=None): seen['lift'] = (target, methods); return wrapper
  def vmap(f, variable_axes=None, split_rngs=None, in_axes=None, out_axes=None, **kw):
    seen['axes'] = (in_axes, out_axes, variable_axes, split_rngs)
    return lambda scopes, *xs: f(('each', scopes), *xs)
  class Tok:
    def __init__(self, *a): self.a = a
    def __eq__(self, o): return isinstance(o, Tok) and self.a == o.a
    __hash__ = None
  d = ns(dispatch=lambda x: Tok('dispatched', x), combine=lambda x: Tok('combined', x))
  va, sr = {'params': 0}, {'params': True, 'dropout': False}
  def expert(scopes, *xs):
    seen['run'] = (scopes, xs)
    out = {'o': Tok('out', *xs), 'p': Tok('out2')} if tree else Tok('out', *xs)
    return (out, 'aux') if aux else out
  fx = Over(M.flax, linen=ns(transforms=ns(lift_transform=lift_transform)), core=ns(lift=ns(vmap=vmap)))
  with use(M, flax=fx):
    w = M.sparse_moe_spmd('target', va, sr, aux, 'methods')
    if not callable(w): raise core.Unsupported('lifted in another way')
    r = w(expert)('scopes', d, *[Tok('in', i) for i in range(nargs)])
  if not {'lift', 'axes', 'run'} <= set(seen): raise core.Unsupported('lifted in another way')
  ins = [Tok('dispatched', Tok('in', i)) for i in range(nargs)]
  obligation('the target, with the given variables and randomness per expert', z3.BoolVal(seen['lift'] == ('target', 'methods') and seen['axes'] == (0, 0, va, sr)))
  obligation('every expert gets what is dispatched to it', z3.BoolVal(seen['run'][0] == ('each', 'scopes') and list(seen['run'][1]) == ins))
  want = {'o': Tok('combined', Tok('out', *ins)), 'p': Tok('combined', Tok('out2'))} if tree else Tok('combined', Tok('out', *ins))
  obligation('outputs are combined', z3.BoolVal(r == ((want, 'aux') if aux else want)))


# -- the model.
def at(a, *ix):
  """Element at integer positions."""
  return a.fn(tuple(T.digits_of(k, ax) for k, ax in zip(ix, a.axes)))


@contract('C32', functions=[f'{VIT}.VisionTransformerMoe.__call__'], max_paths=1500)
def model():
  """Any batch, grid of patches and hidden size."""
  V = loader.load(VIT)
  c = core.cur()
  kind = ['token', '0', 'gap', 'map', 'other'][core.choose(5)]
  rep, classes, emb, det = core.choose(2), core.choose(2), core.choose(3), bool(core.choose(2))
  B, h, w, C = [T.new_dim(n) for n in ('B', 'h', 'w', 'C')]
  patches = T.fresh_array('patches', (B, h, w, C))
  m = object.__new__(V.VisionTransformerMoe)
  m.hidden_size, m.patch_size, m.classifier, m.deterministic = C, (16, 16), kind, det
  m.representation_size, m.num_classes = (T.new_dim('R') if rep else None), (T.new_dim('K') if classes else None)
  m.head_bias_init, m.head_kernel_zero_init = fresh_real('head_bias'), core.fresh_bool('zero_init')
  enc = dict(num_layers=fresh_int('layers', 1), num_heads=fresh_int('heads', 1), mlp_dim=fresh_int('mlp_dim', 1))
  if kind == 'map' and core.choose(2): enc['attention_qk_norm'] = core.fresh_bool('qk')
  if emb: enc['position_emb'] = dict(name=['', 'learned', 'sincos2d'][emb], temperature=fresh_real('temperature'))
  m.encoder = enc
  keep = {k: (dict(v) if isinstance(v, dict) else v) for k, v in enc.items()}
  seen = {}
  n = T.mkdim(h.atoms + w.atoms)
  def conv(features=None, kernel_size=None, strides=None, padding=None, name=None, **kw):
    obligation('one token per patch', z3.And(lin(features) == lin(C), z3.BoolVal(tuple(kernel_size) == (16, 16) and tuple(strides) == (16, 16) and padding == 'VALID')))
    return lambda x: patches
  def encoder_cls(**kw):
    seen['enc'] = kw
    def call(x):
      seen['x'] = x
      seen['y'] = T.fresh_array('encoded', x.shape)
      return seen['y'], {'auxiliary_loss': 5}
    return call
  m.encoder_cls = encoder_cls
  def opaque(tag):
    def make(**kw):
      seen[tag] = kw
      def call(x):
        seen[tag + '.in'] = x
        o = T.fresh_array(tag, (B, kw.get('features', C)))
        seen[tag + '.out'] = o
        return o
      return call
    return make
  def dense(features=None, name=None, **kw): return opaque(name)(features=T.mkdim(T.dim_atoms(features)), **kw)
  ini = Over(V.nn.initializers, constant=lambda v: ('constant', v))
  nn = Over(V.nn, Conv=conv, Dense=dense, initializers=ini, tanh=lambda x: T.tanh(x) if hasattr(T, 'tanh') else T.lift1(lambda q: z3.Function('tanh', RR, RR)(core.to_real(q)), 'float32')(x))
  with use(V, nn=nn, IdentityLayer=lambda **kw: (lambda x: x), MapHead=opaque('map')):
    try: out, metrics = m('images')
    except ValueError:
      obligation('only unknown classifiers are rejected', z3.BoolVal(kind == 'other')); return
  obligation('known classifier', z3.BoolVal(kind != 'other'))
  if not {'enc', 'x'} <= set(seen): raise core.Unsupported('encoder made in another way')
  x, kw = seen['x'], dict(seen['enc'])
  b, i, j, k = [T.ivar(a.atoms[0], q) for a, q in ((B, 'b'), (h, 'i'), (w, 'j'), (C, 'c'))]
  extra = 1 if kind == 'token' else 0
  obligation('tokens of the patches' + ' after the class token' * extra, z3.And(z3.BoolVal(x.ndim == 3), lin(x.shape[0]) == lin(B), lin(x.shape[1]) == lin(h) * lin(w) + extra, lin(x.shape[2]) == lin(C)))
  flat = T.linear((i, j), h.atoms + w.atoms)
  obligation('patches row by row', at(x, b, flat + extra, k) == patches.el(b, i, j, k))
  if extra:
    (own, cls), = [v for v in c.nn_params.values()]
    obligation('the same class token first', z3.And(z3.BoolVal(cls.ndim == 3), at(x, b, z3.IntVal(0), k) == at(cls, z3.IntVal(0), z3.IntVal(0), k)))
  pe = kw.pop('position_emb', None)
  want = dict(keep); wpe = want.pop('position_emb', None)
  want.update(name='Encoder', deterministic=det)
  obligation('encoder as configured', eqv(kw, want))
  if emb == 2: obligation('the grid is given for fixed embeddings', z3.And(z3.BoolVal(pe is not None and pe.get('name') == 'sincos2d' and set(pe) == {'name', 'h', 'w', 'temperature'}), eqv(pe.get('temperature'), wpe['temperature']), lin(pe['h']) == lin(h), lin(pe['w']) == lin(w)))
  else: obligation('embeddings as configured', z3.BoolVal(pe is wpe) if pe is None or wpe is None else eqv(pe, wpe))
  obligation('configuration kept', eqv(enc, keep))
  obligation('metrics of the encoder', z3.BoolVal(metrics == {'auxiliary_loss': 5}))
  y = seen['y']
  pooled = seen.get('pre_logits.in') if rep else (seen.get('head.in') if classes else out)
  if rep and 'pre_logits' not in seen: obligation('representation of the requested size', z3.BoolVal(False)); return
  if pooled is None: raise core.Unsupported('head made in another way')
  if kind in ('token', '0'): obligation('the first token', at(pooled, b, k) == at(y, b, z3.IntVal(0), k))
  elif kind == 'gap':
    obligation('the mean of the tokens', at(pooled, b, k) == at(T.reduce_mean(y, 1), b, k))
  else: obligation('the pooled tokens', z3.And(z3.BoolVal(pooled is seen['map.out'] and seen['map.in'] is y), eqv(seen['map'].get('num_heads'), enc['num_heads']), eqv(seen['map'].get('mlp_dim'), enc['mlp_dim']),
                                                 eqv(seen['map'].get('qk_norm', False), enc.get('attention_qk_norm', False))))
  obligation('one vector per image', z3.And(z3.BoolVal(pooled.ndim == 2), lin(pooled.shape[0]) == lin(B), lin(pooled.shape[1]) == lin(C)))
  if classes:
    obligation('logits of every class', z3.And(z3.BoolVal(out is seen['head.out']), lin(seen['head']['features']) == lin(m.num_classes)))
    obligation('bias of the head', eqv(seen['head'].get('bias_init'), ('constant', m.head_bias_init)))
  if rep: obligation('representation of the requested size', z3.And(z3.BoolVal('pre_logits' in seen), lin(seen['pre_logits']['features']) == lin(m.representation_size)) if 'pre_logits' in seen else z3.BoolVal(False))


@contract('C32', functions=[f'{VIT}.MapHead.__call__'])
def map_head():
  """Any tokens: one learned query per image attends to its tokens; then the MLP, added to it."""
  V = loader.load(VIT)
  c = core.cur()
  B, Tk, H = [T.new_dim(n) for n in ('B', 'T', 'H')]
  x = T.fresh_array('x', (B, Tk, H))
  heads, wide, qk = fresh_int('heads', 1), fresh_int('mlp_dim', 1), core.fresh_bool('qk')
  calls = []
  def layer(tag):
    def make(**kw):
      def call(*a, **k):
        o = T.fresh_array(tag, (B, 1, H))
        calls.append((tag, kw, a, k, o))
        return o
      return call
    return make
  e = object.__new__(V.MapHead)
  e.num_heads, e.mlp_dim, e.qk_norm = heads, wide, qk
  with use(V, MultiHeadDotProductAttention=layer('attention'), MlpBlock=layer('mlp'), nn=Over(V.nn, LayerNorm=layer('norm'))): y = e(x)
  if [t_ for t_, *_ in calls] != ['attention', 'norm', 'mlp']: raise core.Unsupported('another order of layers')
  (_, kw, a, k, o), n, m = calls
  b, t_, h = [T.ivar(q.atoms[0], s_) for q, s_ in ((B, 'b'), (Tk, 't'), (H, 'h'))]
  z = z3.IntVal(0)
  q, kv = k.get('inputs_q', a[0] if a else None), k.get('inputs_kv', a[1] if len(a) > 1 else None)
  (own, probe), = [v for v in c.nn_params.values()]
  obligation('the same learned query for every image', z3.And(z3.BoolVal(q.ndim == 3), lin(q.shape[0]) == lin(B), lin(q.shape[1]) == 1, at(q, b, z, h) == at(probe, z, z, h)))
  obligation('attends to the tokens of the image', z3.And(z3.BoolVal(kv.ndim == 3), at(kv, b, t_, h) == at(x, b, t_, h), lin(kv.shape[1]) == lin(Tk)))
  obligation('attention as configured', z3.And(eqv(kw.get('num_heads'), heads), eqv(kw.get('normalize_qk', False), qk), eqv(kw.get('dropout_rate', 0.), 0.)))
  obligation('MLP of the normalised result', z3.And(at(n[2][0], b, z, h) == at(o, b, z, h), at(m[2][0], b, z, h) == at(n[4], b, z, h), eqv(m[1].get('mlp_dim'), wide)))
  obligation('sum of both', z3.And(z3.BoolVal(y.ndim == 2), at(y, b, h) == at(o, b, z, h) + at(m[4], b, z, h)))


# -- fixed position embeddings.
class MGrid:
  """jnp.mgrid of two ranges from zero."""
  def __getitem__(self, k):
    a, b = k
    if any(s.start is not None or s.step is not None for s in (a, b)): raise core.Unsupported('grid')
    ia, ib = T.arange(a.stop), T.arange(b.stop)
    y = T.SArr([ia.axes[0], ib.axes[0]], lambda i: ia.fn((i[0],)), 'int32')
    x = T.SArr([ia.axes[0], ib.axes[0]], lambda i: ib.fn((i[1],)), 'int32')
    return T.stack([y, x])


@contract('C32', functions=[f'{VIT}.EncoderMoe.add_position_emb'], max_paths=40)
def fixed_embeddings():
  """Any batch, grid and hidden size (a multiple of four, at least eight), with or without a class token."""
  V = loader.load(VIT)
  c = core.cur()
  cls = core.choose(2)
  B, h, w, Q = [T.new_dim(n) for n in ('B', 'h', 'w', 'Q')]
  assume(lin(Q) >= 2)
  C = T.mkdim(T.dim_atoms(4) + Q.atoms)
  grid = T.mkdim(h.atoms + w.atoms)
  x = T.fresh_array('x', (B, grid + 1 if cls else grid, C))
  e = object.__new__(V.EncoderMoe)
  temp = fresh_real('temperature')
  assume(temp.t > 0)
  given = core.choose(2)
  e.position_emb = dict(name='sincos2d', h=h, w=w, **(dict(temperature=temp) if given else {}))
  fn = lambda n: (lambda a: T.lift1(lambda q: z3.Function(n, RR, RR)(core.to_real(q)), 'float32')(T.asarr(a)))
  with use(V, jnp=Over(V.jnp, mgrid=MGrid(), sin=fn('sin'), cos=fn('cos'))): y = e.add_position_emb(x)
  obligation('tokens as before', z3.And(z3.BoolVal(y.ndim == 3), *[lin(a) == lin(b) for a, b in zip(y.shape, x.shape)]))
  b, i, j, q = [T.ivar(a.atoms[0], s) for a, s in ((B, 'b'), (h, 'i'), (w, 'j'), (Q, 'q'))]
  flat = T.linear((i, j), h.atoms + w.atoms) + cls
  sin, cos = [z3.Function(s, RR, RR) for s in ('sin', 'cos')]
  om = core.zpow(temp.t if given else z3.RealVal(10000), z3.ToReal(q) / (z3.ToReal(lin(Q)) - 1))
  assume(om > 0)        # a power of a positive number
  for k, f, p in ((0, sin, j), (1, cos, j), (2, sin, i), (3, cos, i)):
    ch = T.linear((z3.IntVal(k), q), T.dim_atoms(4) + Q.atoms)
    got = at(y, b, flat, ch) - at(x, b, flat, ch)
    obligation(f'waves of the position ({k})', got == f(z3.ToReal(p) / om), hints={'abstract': True})
  if cls:
    o = T.ivar(Q.atoms[0], 'o')
    ch = T.linear((z3.IntVal(0), o), T.dim_atoms(4) + Q.atoms)
    obligation('the class token is left alone', at(y, b, z3.IntVal(0), ch) == at(x, b, z3.IntVal(0), ch))


@contract('C32', functions=[f'{VIT}.EncoderBlock.__call__'])
def block():
  """Any tokens: attention and then the (expert) MLP, each added to what it was given."""
  V = loader.load(VIT)
  B, Tk, H = [T.new_dim(n) for n in ('B', 'T', 'H')]
  x = T.fresh_array('x', (B, Tk, H))
  moe, det, qk, heads, rate, att = core.choose(2), core.fresh_bool('deterministic'), core.fresh_bool('qk'), fresh_int('heads', 1), fresh_real('rate'), fresh_real('attention_rate')
  calls = []
  def layer(tag, has_metrics=False):
    def make(**kw):
      def call(*a, **k):
        o = T.fresh_array(tag, (B, Tk, H))
        calls.append((tag, kw, list(a) + list(k.values()), o))
        return (o, {'auxiliary_loss': 7}) if has_metrics else o
      return call
    return make
  e = object.__new__(V.EncoderBlock)
  e.mlp_block, e.num_heads, e.dtype, e.dropout_rate, e.attention_dropout_rate, e.attention_qk_norm, e.deterministic = layer('mlp', bool(moe)), heads, 'dt', rate, att, qk, det
  with use(V, MultiHeadDotProductAttention=layer('attention'), nn=Over(V.nn, LayerNorm=layer('norm'), Dropout=layer('dropout'))): r = e(x)
  if [t_ for t_, *_ in calls] != ['norm', 'attention', 'dropout', 'norm', 'mlp']: raise core.Unsupported('another order of layers')
  n1, a, d, n2, m = calls
  same = lambda p, q: z3.And(z3.BoolVal(p.ndim == 3), p.el(*ix) == q.el(*ix))
  ix = [T.ivar(k.atoms[0], s) for k, s in ((B, 'b'), (Tk, 't'), (H, 'h'))]
  obligation('attention of the normalised tokens', z3.And(same(n1[2][0], x), *[same(k, n1[3]) for k in a[2]], same(d[2][0], a[3])))
  mid = d[3] + x
  obligation('MLP of the normalised sum', z3.And(same(n2[2][0], mid), same(m[2][0], n2[3])))
  y = r[0] if moe else r
  obligation('sum of both', same(y, mid + m[3]))
  obligation('metrics of the experts', z3.BoolVal((not moe) or r[1] == {'auxiliary_loss': 7}))
  obligation('attention as configured', z3.And(*[eqv(a[1].get(k), v) for k, v in dict(num_heads=heads, dropout_rate=att, deterministic=det, normalize_qk=qk, dtype='dt').items()]))
  obligation('dropout and MLP as configured', z3.And(eqv(d[1].get('rate'), rate), eqv(d[1].get('deterministic'), det), eqv(m[1], dict(dtype='dt', deterministic=det))))
