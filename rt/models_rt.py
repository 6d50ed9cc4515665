"""C32: contracts of the models evaluated on the real code."""
from rt import absent
absent.install()
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from rt.base import check, raises
import vmoe.moe
from vmoe.nn import routing
from vmoe.nn import vit_moe as V
from vmoe.nn import vit_moe_ensemble as W

KEYS = lambda s: dict(params=jax.random.PRNGKey(s), gating=jax.random.PRNGKey(s + 1), dropout=jax.random.PRNGKey(s + 2))


def softmax(z):
  z = np.exp(z - z.max(-1, keepdims=True))
  return z / z.sum(-1, keepdims=True)


def divisors(n): return [d for d in range(1, n + 1) if n % d == 0]


@check('C32')
def layer(run):
  """With room for all tokens, every token's output is the weighted sum of its experts' outputs, at its own place."""
  for _ in range(run.n(4, 25)):
    rng = run.rng
    B, Tk, H, E = rng.randint(1, 4), rng.randint(1, 6), 4, rng.randint(1, 4)
    S = rng.choice(divisors(B * Tk))
    K = rng.randint(1, E)
    run.case('layer', batch=B, tokens=Tk, experts=E, selected=K, group=S)
    split = rng.choice([True, ('params',)])
    m = V.MlpMoeBlock(mlp_dim=8, num_experts=E, group_size=S, deterministic=True, split_rngs=split,
                      router=dict(num_selected_experts=K, dispatcher=dict(name=rng.choice(['einsum', 'indices']), capacity=S, batch_priority=False)))
    x = run.np.normal(size=(B, Tk, H)).astype(np.float32)
    var = m.init(KEYS(rng.randrange(100)), x)
    y, metrics = m.apply(var, x)
    run.expect(y.shape == x.shape, 'output-of-every-token', f'{y.shape}')
    if y.shape != x.shape: continue
    p = var['params']
    g = softmax(np.einsum('bth,he->bte', x, np.asarray(p['Router']['dense']['kernel'])))
    outs = []
    for e in range(E):
      pe = jax.tree_util.tree_map(lambda a: a[e], p['Mlp'])
      outs.append(np.asarray(V.MlpBlock(mlp_dim=8, deterministic=True).apply({'params': pe}, x)))
    order = np.argsort(-g, -1, kind='stable')[..., :K]
    want = np.zeros_like(x)
    for b in range(B):
      for t in range(Tk):
        for e in order[b, t]: want[b, t] += g[b, t, e] * outs[e][b, t]
    run.expect(np.allclose(y, want, rtol=2e-3, atol=1e-4), 'own-place-own-experts', f'{np.abs(y - want).max()}')
    run.expect('auxiliary_loss' in metrics, 'metrics', '')


@check('C32')
def options(run):
  class Chosen:
    def __init__(self, **kw): self.kw = kw
  for det in (True, False):
    for over in (None, True, False):
      for name in (None, 'NoisyTopItemsPerExpertRouter', 'NoisyTopItemsPerExpertRouter(noise_std=0.25)'):
        run.case('options', deterministic=det, override=over, router=name)
        r = dict(dispatcher=dict(a=1))
        if over is not None: r['deterministic'] = over
        if name: r['name'] = name
        if not name: r['num_selected_experts'] = 2
        keep = dict(r)
        m = V.MlpMoeBlock(mlp_dim=8, num_experts=5, group_size=2, deterministic=det, router=r, dtype=jnp.float32)
        out = m.create_router()
        cls = routing.NoisyTopItemsPerExpertRouter if name else routing.NoisyTopExpertsPerItemRouter
        run.expect(type(out) is cls, 'configured-router', f'{type(out)}')
        run.expect(out.deterministic == (det if over is None else over), 'deterministic', f'{out.deterministic}')
        run.expect(out.num_experts == 5 and out.dtype == jnp.float32 and dict(out.dispatcher) == dict(a=1) and (name or out.num_selected_experts == 2), 'every-option', f'{out}')
        if name and '(' in name: run.expect(out.noise_std == 0.25, 'options-in-the-name', f'{out.noise_std}')
        run.expect(dict(r) == keep, 'configuration-kept', '')
      for size in (None, 0, -1, 1, 3):
        run.case('options', deterministic=det, override=over, ensemble=size)
        m = W.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter(mlp_dim=8, num_experts=6, group_size=3, deterministic=det, ensemble_size=size, router=None if over is None else dict(deterministic=over))
        if size is None or size <= 0: run.expect(raises(m.create_router, ValueError), 'impossible-size-rejected', ''); continue
        out = m.create_router()
        run.expect(out.ensemble_size == size and out.num_experts == 6 and out.deterministic == (det if over is None else over), 'ensemble-options', f'{out}')
  for s, want in ((True, (1, 1)), (False, (0, 0)), (('params',), (1, 0)), (['dropout'], (0, 1)), ((), (0, 0)), (('params', 'dropout'), (1, 1))):
    run.case('options', split_rngs=s)
    d = V.MlpMoeBlock(mlp_dim=8, num_experts=2, group_size=2, split_rngs=s).create_split_rngs()
    run.expect((bool(d['params']), bool(d['dropout'])) == (bool(want[0]), bool(want[1])), 'split-exactly-where-asked', f'{d}')
  for s in (False, ('params',)):
    run.case('options', experts_initialised_apart=bool(s))
    m = V.MlpMoeBlock(mlp_dim=8, num_experts=2, group_size=2, deterministic=True, split_rngs=s, router=dict(dispatcher=dict(name='einsum', capacity=2, batch_priority=False)))
    p = m.init(KEYS(0), np.ones((1, 2, 4), np.float32))['params']['Mlp']
    same = all(np.array_equal(a[0], a[1]) for a in jax.tree_util.tree_leaves(p))
    run.expect(same == (not s), 'expert-initialisation', f'{s} {same}')


def paths(tree): return {'/'.join(k.key for k in p): v for p, v in jax.tree_util.tree_flatten_with_path(tree)[0]}


@check('C32')
def encoder(run):
  plan = [(False, ()), (False, (1,)), (False, (0, 2)), (True, (1, 2)), (True, (0,)), (True, ()), (False, tuple(range(8)))] + [(run.rng.random() < .5, tuple(sorted(run.rng.sample(range(4), run.rng.randint(0, 4))))) for _ in range(run.n(0, 12))]
  for ens, layers in plan:
    rng = run.rng
    B, Tk, H, N, M = 2, 2, 8, max(3, max(layers or (0,)) + 1), rng.randint(1, 3) if not layers else rng.randint(2, 3)
    qk = rng.random() < .5
    run.case('encoder', ensemble=M if ens else None, experts_in=layers, blocks=N, qk=qk)
    E = M * 2 if ens else 2
    cap = B * Tk * M
    moe = dict(num_experts=E, group_size=B * Tk * (M if ens else 1), router=dict(num_selected_experts=1, dispatcher=dict(name='einsum', capacity=cap, batch_priority=False)))
    if rng.random() < .7 or layers: moe['layers'] = layers
    if ens: moe['ensemble_size'] = M
    moe['split_rngs'] = rng.random() < .8
    cls = W.EncoderMoeEnsemble if ens else V.EncoderMoe
    pos = rng.choice([None, dict(name='none'), dict(name='sincos2d', h=1, w=2)])
    enc = cls(num_layers=N, mlp_dim=8, num_heads=2, deterministic=True, attention_qk_norm=qk, moe=moe, position_emb=pos)
    x = run.np.normal(size=(B, Tk, H)).astype(np.float32)
    var = enc.init(KEYS(rng.randrange(100)), x)
    (y, metrics), state = enc.apply(var, x, capture_intermediates=True, mutable=['intermediates'])
    ps = var['params']
    got = [i for i in range(N) if 'Moe' in ps[f'encoderblock_{i}']]
    run.expect(got == list(layers), 'experts-exactly-where-configured', f'{got} {layers}')
    run.expect(all(('Mlp' in ps[f'encoderblock_{i}']) == (i not in layers) for i in range(N)), 'dense-otherwise', '')
    run.expect(sorted(k for k in ps if k.startswith('encoderblock')) == sorted(f'encoderblock_{i}' for i in range(N)), 'all-blocks', f'{sorted(ps)}')
    run.expect(all(('query_ln' in ps[f'encoderblock_{i}']['SelfAttention']) == qk for i in range(N)), 'attention-option', f'qk={qk}')
    run.expect(('posembed_input' in ps) == (pos is None), 'embedding-option', f'{pos}')
    run.expect(sorted(metrics) == sorted([f'encoderblock_{i}' for i in layers] + ['auxiliary_loss']), 'metrics-of-expert-blocks', f'{sorted(metrics)}')
    total = sum(np.asarray(metrics[f'encoderblock_{i}']['auxiliary_loss']) for i in layers)
    run.expect(np.allclose(metrics['auxiliary_loss'], total), 'auxiliary-loss', f"{metrics['auxiliary_loss']} {total}")
    run.expect(y.shape == (B * (M if ens and layers else 1), Tk, H), 'members', f'{y.shape}')
    # run the blocks one after another.
    z = jnp.asarray(x)
    if pos is None: z = z + ps['posembed_input']['pos_embedding']
    elif pos['name'] == 'sincos2d': z = enc.add_position_emb(z)
    done = False
    opts = dict(num_heads=2, attention_qk_norm=qk, deterministic=True)
    mo = {k: v for k, v in moe.items() if k != 'layers'}
    import functools
    for i in range(N):
      if i in layers:
        if ens and not done: z, done = jnp.repeat(z, M, axis=0), True
        c = functools.partial(W.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter if ens else V.MlpMoeBlock, mlp_dim=8, name='Moe', **mo)
        z, _ = V.EncoderBlock(mlp_block=c, **opts).apply({'params': ps[f'encoderblock_{i}']}, z)
      else:
        c = functools.partial(V.MlpBlock, mlp_dim=8, name='Mlp')
        z = V.EncoderBlock(mlp_block=c, **opts).apply({'params': ps[f'encoderblock_{i}']}, z)
    z = nn.LayerNorm().apply({'params': ps['encoder_norm']}, z)
    run.expect(np.allclose(y, z, rtol=1e-3, atol=1e-4), 'blocks-in-order', f'{np.shape(y)} {np.shape(z)}')


@check('C32')
def embeddings(run):
  for _ in range(run.n(4, 20)):
    rng = run.rng
    h, w, q, cls = rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 4), rng.randrange(2)
    temp = rng.choice([None, 50.])
    run.case('embeddings', h=h, w=w, channels=4 * q, class_token=cls, temperature=temp)
    e = V.EncoderMoe(num_layers=1, mlp_dim=8, num_heads=2, position_emb=dict(name='sincos2d', h=h, w=w, **({} if temp is None else dict(temperature=temp))))
    x = run.np.normal(size=(2, h * w + cls, 4 * q)).astype(np.float32)
    y = np.asarray(e.add_position_emb(jnp.asarray(x)))
    want = x.copy()
    om = (10_000. if temp is None else temp) ** -(np.arange(q) / (q - 1))
    for i in range(h):
      for j in range(w): want[:, cls + i * w + j] += np.concatenate([np.sin(j * om), np.cos(j * om), np.sin(i * om), np.cos(i * om)]).astype(np.float32)
    run.expect(y.shape == x.shape and np.allclose(y, want, atol=1e-4), 'waves-of-the-position', '')
    bad = dict(n=(h * w + 2, 4 * q), c=(h * w, 4 * q + rng.randint(1, 3)), small=(h * w, 4))
    for k, (n, c) in bad.items():
      run.expect(raises(lambda: e.add_position_emb(jnp.zeros((1, n, c))), ValueError), 'impossible-sizes-rejected', f'{k} {n} {c}')
  e = V.EncoderMoe(num_layers=1, mlp_dim=8, num_heads=2, position_emb=dict(name='?'))
  run.case('embeddings', name='?')
  run.expect(raises(lambda: e.add_position_emb(jnp.zeros((1, 2, 8))), ValueError), 'unknown-embedding-rejected', '')


class Recorder(nn.Module):
  """In place of the encoder: returns twice its input."""
  deterministic: bool = False
  options: dict = None
  position_emb: dict = None
  num_heads: int = 0
  mlp_dim: int = 0
  @nn.compact
  def __call__(self, x):
    SEEN.append((x, self.deterministic, self.position_emb))
    return 2 * x, {'auxiliary_loss': 3.}


SEEN = []


@check('C32')
def models(run):
  for kind in ('token', '0', 'gap', 'map', '?'):
    for _ in range(run.n(1, 5)):
      rng = run.rng
      rep, classes, det = rng.choice([None, 6]), rng.choice([None, 5]), rng.random() < .5
      h, w = rng.randint(1, 3), rng.randint(1, 3)
      emb = rng.choice([None, 'sincos2d', 'learned'])
      run.case('models', classifier=kind, representation=rep, classes=classes, grid=(h, w), embedding=emb)
      enc = dict(num_heads=2, mlp_dim=8)
      if emb: enc['position_emb'] = dict(name=emb)
      m = V.VisionTransformerMoe(num_classes=classes, patch_size=(2, 2), hidden_size=8, encoder=enc, classifier=kind, representation_size=rep, deterministic=det, encoder_cls=Recorder, head_kernel_zero_init=False, head_bias_init=-2.)
      x = run.np.normal(size=(2, 2 * h, 2 * w, 3)).astype(np.float32)
      if kind == '?': run.expect(raises(lambda: m.init(KEYS(0), x), ValueError), 'unknown-classifier-rejected', ''); continue
      var = m.init(KEYS(rng.randrange(100)), x)
      p = dict(var['params'])
      if kind == 'token':
        p['cls'] = jnp.asarray(run.np.normal(size=p['cls'].shape), jnp.float32)
      SEEN.clear()
      y, metrics = m.apply({'params': p}, x)
      t, d, pe = SEEN[-1]
      k = np.asarray(p['embedding']['kernel'])
      tok = np.stack([np.einsum('bijc,ijch->bh', x[:, 2 * i:2 * i + 2, 2 * j:2 * j + 2], k) + p['embedding']['bias'] for i in range(h) for j in range(w)], 1)
      if kind == 'token': tok = np.concatenate([np.tile(p['cls'], (2, 1, 1)), tok], 1)
      run.expect(t.shape == tok.shape and np.allclose(t, tok, rtol=1e-3, atol=1e-4), 'tokens-of-the-patches', f'{t.shape} {tok.shape}')
      run.expect(d == det, 'deterministic', '')
      if emb == 'sincos2d': run.expect(dict(pe) == dict(name='sincos2d', h=h, w=w), 'grid-for-embeddings', f'{pe}')
      else: run.expect((pe is None) if emb is None else dict(pe) == dict(name='learned'), 'embeddings-as-configured', f'{pe}')
      run.expect(metrics == {'auxiliary_loss': 3.}, 'metrics', '')
      z = 2 * np.asarray(t)
      if kind in ('token', '0'): v = z[:, 0]
      elif kind == 'gap': v = z.mean(1)
      else: v = np.asarray(V.MapHead(mlp_dim=8, num_heads=2).apply({'params': p['MapHead']}, z))
      if rep: v = np.tanh(v @ np.asarray(p['pre_logits']['kernel']) + p['pre_logits']['bias'])
      if classes:
        v = v @ np.asarray(p['head']['kernel']) + p['head']['bias']
        run.expect(np.all(np.asarray(p['head']['bias']) == -2.), 'head-bias', '')
      run.expect(y.shape == v.shape and np.allclose(y, v, rtol=1e-2, atol=1e-3), 'classifier', f'{y.shape} {v.shape}')


def structure_of(m, x):
  """The attributes of every module that runs, by path (shapes only: nothing is computed)."""
  seen = {}
  def note(nxt, args, kwargs, context):
    if context.method_name == '__call__': seen.setdefault('/'.join(context.module.path), context.module)
    return nxt(*args, **kwargs)
  def run(x):
    with nn.intercept_methods(note): return m.init_with_output(KEYS(0), x)
  (y, metrics), var = jax.eval_shape(run, x)
  return y, metrics, var, seen


@check('C32')
def structure(run):
  """Every module of random models has exactly the configured options."""
  for _ in range(run.n(25, 200)):
    rng = run.rng
    ens, N, heads, M = rng.random() < .4, rng.choice([1, 2, 3, 5, 10]), rng.choice([1, 2]), rng.randint(1, 3)
    rates = [rng.choice([0., .1, .2, .4]) for _ in range(3)]
    det, qk = rng.random() < .5, rng.random() < .5
    pool = list(range(N)) * 3 + [-1, -N, N, N + 1]
    layers = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
    layers = rng.choice([tuple, list, set])(layers)
    E = M * 2
    moe = dict(num_experts=E, group_size=M * 2 if ens else 2, layers=layers, router=dict(dispatcher=dict(name='einsum', capacity=4, batch_priority=False)))
    if not ens: moe['router']['num_selected_experts'] = 1
    over = {}
    if rng.random() < .4: over['mlp_dim'] = 7
    if rng.random() < .4: over['dropout_rate'] = rates[2]
    if rng.random() < .4: over['split_rngs'] = rng.random() < .5
    moe.update(over)
    if ens: moe['ensemble_size'] = M
    rdet = rng.choice([None, True, False])
    if rdet is not None: moe['router']['deterministic'] = rdet
    enc = dict(num_layers=N, mlp_dim=5, num_heads=heads, dropout_rate=rates[0], attention_dropout_rate=rates[1], moe=moe)
    if qk or rng.random() < .5: enc['attention_qk_norm'] = qk
    pos = rng.choice([None, dict(name='learned'), dict(name='none'), dict(name='sincos2d', temperature=rng.choice([1., 20.]))])
    if pos: enc['position_emb'] = pos
    kind = rng.choice(['token', '0', 'gap', 'map'])
    rep, classes = rng.choice([None, 8, 6]), rng.choice([None, 0, 1, 5])
    bias = rng.choice([0., 1.5, -3.])
    run.case('structure', ensemble=M if ens else None, encoder=repr(enc), classifier=kind, representation=rep, classes=classes, deterministic=det)
    keep = repr(enc)
    cls = W.VisionTransformerMoeEnsemble if ens else V.VisionTransformerMoe
    m = cls(num_classes=classes, patch_size=(2, 2), hidden_size=8, encoder=enc, classifier=kind, representation_size=rep, deterministic=det, head_bias_init=bias)
    x = np.zeros((2 * (2 if kind == 'token' else 1), 4, 4, 3), np.float32)
    y, metrics, var, seen = structure_of(m, x)
    run.expect(repr(enc) == keep, 'configuration-kept', '')
    B = len(x)
    blocks = sorted(set(layers) & set(range(N)))
    run.expect(y.shape == (B * (M if ens and blocks else 1), classes or rep or 8), 'outputs', f'{y.shape}')
    run.expect(('head' in seen) == bool(classes) and ('head' in var['params']) == bool(classes), 'head-as-configured', f'{classes}')
    run.expect(('kernel' in var['params'].get('pre_logits', {})) == (rep is not None), 'representation-as-configured', f'{rep}')
    enc_ = seen['Encoder']
    run.expect(enc_.deterministic == det, 'deterministic', '')
    if pos and pos['name'] == 'sincos2d': run.expect(dict(enc_.position_emb) == dict(pos, h=2, w=2), 'embedding-as-configured', f'{enc_.position_emb}')
    else: run.expect((enc_.position_emb or {}) == (pos or {}), 'embedding-as-configured', f'{enc_.position_emb}')
    if kind == 'map': run.expect((seen['MapHead'].num_heads, seen['MapHead'].mlp_dim, seen['MapHead'].qk_norm) == (heads, 5, qk), 'pooling-as-configured', '')
    if classes: run.expect(float(seen['head'].bias_init(jax.random.PRNGKey(0), (1,), jnp.float32)[0]) == bias, 'head-bias', '')
    # for the rest, what holds of every block.
    run.expect(sorted(k for k in var['params']['Encoder'] if k.startswith('encoderblock_')) == sorted(f'encoderblock_{i}' for i in range(N)), 'all-blocks', '')
    run.expect(sorted(metrics) == sorted(['auxiliary_loss'] + [f'encoderblock_{i}' for i in blocks]), 'metrics-of-expert-blocks', f'{sorted(metrics)}')
    for i in range(N):
      at = f'Encoder/encoderblock_{i}/'
      a = seen[at + 'SelfAttention']
      run.expect((a.num_heads, a.dropout_rate, a.normalize_qk, a.deterministic) == (heads, rates[1], qk, det), 'attention-as-configured', f'{i}: {a}')
      drops = [b for k, b in seen.items() if k.startswith(at) and isinstance(b, nn.Dropout) and k.count('/') == 2]
      run.expect(len(drops) == 1 and drops[0].rate == rates[0] and drops[0].deterministic == det, 'dropout-as-configured', f'{drops}')
      if i in blocks:
        o = seen.get(at + 'Moe')
        run.expect(o is not None and at + 'Mlp' not in seen, 'experts-exactly-where-configured', f'{i}')
        if o is None: continue
        run.expect((o.mlp_dim, o.dropout_rate, o.num_experts, o.group_size, o.deterministic, o.split_rngs) == (over.get('mlp_dim', 5), over.get('dropout_rate', rates[0]), E, moe['group_size'], det, over.get('split_rngs', False)), 'experts-as-configured', f'{o}')
        r = seen[at + 'Moe/Router']
        run.expect(r.deterministic == (det if rdet is None else rdet) and r.num_experts == E, 'router-as-configured', f'{r}')
        w = var['params']['Encoder'][f'encoderblock_{i}']['Moe']['Mlp']['Dense_0']['kernel'].shape
        run.expect(w == (E, 8, over.get('mlp_dim', 5)), 'parameters-of-every-expert', f'{w}')
      else:
        o = seen.get(at + 'Mlp')
        run.expect(o is not None and at + 'Moe' not in seen, 'dense-exactly-elsewhere', f'{i}')
        if o is not None: run.expect((o.mlp_dim, o.dropout_rate, o.deterministic) == (5, rates[0], det), 'dense-as-configured', f'{o}')


@check('C32')
def pooling(run):
  for _ in range(run.n(4, 20)):
    rng = run.rng
    B, Tk, H, heads, qk = rng.randint(1, 3), rng.randint(1, 5), 8, rng.choice([1, 2, 4]), rng.random() < .5
    run.case('pooling', batch=B, tokens=Tk, heads=heads, qk=qk)
    m = V.MapHead(mlp_dim=6, num_heads=heads, qk_norm=qk)
    x = run.np.normal(size=(B, Tk, H)).astype(np.float32)
    var = m.init(KEYS(rng.randrange(50)), x)
    p = var['params']
    y = np.asarray(m.apply(var, x))
    a = V.MultiHeadDotProductAttention(num_heads=heads, deterministic=True, normalize_qk=qk).apply({'params': p['MultiHeadDotProductAttention']}, np.tile(p['probe'], (B, 1, 1)), x)
    n = nn.LayerNorm().apply({'params': p['LayerNorm']}, a)
    want = (a + V.MlpBlock(mlp_dim=6, deterministic=True).apply({'params': p['Mlp']}, n))[:, 0]
    run.expect(y.shape == (B, H) and np.allclose(y, want, rtol=1e-3, atol=1e-5), 'one-query-per-image', f'{y.shape}')
    run.expect(('query_ln' in p['MultiHeadDotProductAttention']) == qk, 'normalised-as-configured', '')
