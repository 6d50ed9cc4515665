"""C36: contracts of contrastive training (vmoe/projects/contrastive) evaluated on the real code."""
from unittest import mock
import types
from rt import absent
absent.install()
import flax
import flax.linen as nn
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from rt.base import check, raises
from vmoe import utils as U
from vmoe.projects.contrastive import models as M, trainer as CT, evaluators as EV
from vmoe.train.train_state import TrainState
from vmoe.train.tree_summarizer import TreeSummarizer


def logsig(x): return -np.logaddexp(0., -np.asarray(x, np.float64))


def loss_of(x):
  x = np.asarray(x, np.float64)
  z = 2 * np.eye(x.shape[-1]) - 1
  return -(logsig(x * z)).sum(-1)


@check('C36')
def pairs_loss(run):
  for it in range(run.n(40, 400)):
    n = run.rng.choice([1, 2, 3, 5, 16])
    lead = tuple(run.rng.randint(1, 3) for _ in range(run.rng.randint(0, 2)))
    scale = run.rng.choice([.1, 1., 10., 200.])
    x = (run.np.normal(size=(*lead, n, n)) * scale).astype(np.float32)
    run.case('pairs_loss', shape=x.shape, scale=scale)
    r = np.asarray(CT.sigmoid_loss(jnp.asarray(x)))
    w = loss_of(x)
    run.expect(r.shape == w.shape and np.allclose(r, w, rtol=1e-4, atol=1e-5), 'own-text-positive-others-negative', f'{r} want {w}')
    g = np.asarray(jax.grad(lambda a: CT.sigmoid_loss(a).sum())(jnp.asarray(x)))
    run.expect(np.isfinite(g).all(), 'finite-gradient')
  for sh in ((3,), (), (2, 3), (3, 2), (3, 3, 2), (2, 1), (1, 2)):
    run.case('not square', shape=sh)
    run.expect(raises(lambda: CT.sigmoid_loss(jnp.zeros(sh)), ValueError), 'logits-that-are-not-square-rejected')


KEYS = lambda s: dict(params=jax.random.PRNGKey(s), gating=jax.random.PRNGKey(s + 1), dropout=jax.random.PRNGKey(s + 2))
ENC = lambda **k: dict(num_layers=1, num_heads=2, mlp_dim=6, dropout_rate=0., attention_dropout_rate=0., moe=dict(layers=()), **k)


@check('C36')
def two_towers(run):
  for it in range(run.n(5, 20)):
    H = 4
    image = dict(num_classes=H, patch_size=(2, 2), hidden_size=8, encoder=ENC(position_emb=dict(name='learned')), classifier='gap', representation_size=None)
    text = dict(vocab_size=11, num_classes=H, hidden_size=6, encoder=ENC(position_emb=dict(name='learned')), pool_type=run.rng.choice(['last', 'first', 'gap', 'gmp', 'map']))
    if run.rng.random() < .5: image['name'] = 'VisionTransformerMoe'
    si, bi = run.rng.choice([1., 10., .5]), run.rng.choice([None, -10., 0., 2.5])
    nI, nT = run.rng.randint(1, 4), run.rng.randint(1, 4)
    run.case('two_towers', image=image, text=text, scale_init=si, bias_init=bi, images=nI, texts=nT)
    m = M.TwoTower(image=image, text=text, scale_init=si, bias_init=bi, deterministic=True)
    x = jnp.asarray(run.np.normal(size=(nI, 4, 4, 3)), jnp.float32)
    t = jnp.asarray(run.np.integers(0, 11, (nT, 5)))
    v = m.init(KEYS(it), x, t)
    p = v['params']
    run.expect(set(p) == {'img', 'txt', 's'} | ({'b'} if bi is not None else set()), 'parameters', f'{set(p)}')
    run.expect(np.allclose(p['s'], np.log(si)) and (bi is None or np.allclose(p['b'], bi)), 'initial-scale-and-bias', f"{p['s']}")
    p = flax.core.unfreeze(p)
    if not np.asarray(p['img']['head']['kernel']).any(): p['img']['head']['kernel'] = jnp.asarray(run.np.normal(size=p['img']['head']['kernel'].shape), jnp.float32)
    p = dict(p, s=p['s'] + .3, **({'b': p['b'] - 1.} if bi is not None else {}))
    zi, mi = m.apply(dict(params=p), x, None)
    zt, mt = m.apply(dict(params=p), None, t)
    lg, me = m.apply(dict(params=p), x, t)
    run.expect(zi.shape == (nI, H) and zt.shape == (nT, H) and lg.shape == (nI, nT), 'shapes')
    run.expect(np.allclose(np.linalg.norm(zi, axis=-1), 1, atol=1e-4) and np.allclose(np.linalg.norm(zt, axis=-1), 1, atol=1e-4), 'unit-length', f'{zi} {zt}')
    run.expect(set(mi) == {'img'} and set(mt) == {'txt'} and {'img', 'txt', 'scale'} == set(me), 'metrics-of-the-towers')
    want = np.exp(np.log(si) + .3) * (np.asarray(zi, np.float64) @ np.asarray(zt, np.float64).T) + (0 if bi is None else bi - 1)
    run.expect(np.allclose(lg, want, rtol=1e-4, atol=1e-4), 'scaled-inner-products-plus-bias', f'{lg} want {want}')
    run.expect(np.allclose(me['scale'], si * np.exp(.3), rtol=1e-5), 'scale-reported')
    ti, _ = m.image_model_class(name=None).apply(dict(params=p['img']), x)
    tt, _ = m.text_model_class(name=None).apply(dict(params=p['txt']), t)
    un = lambda a: np.asarray(a) / np.linalg.norm(a, axis=-1, keepdims=True)
    run.expect(np.allclose(un(ti), zi, atol=1e-4) and np.allclose(un(tt), zt, atol=1e-4), 'each-tower-embeds-its-input')
    run.expect(raises(lambda: m.apply(dict(params=p), None, None), ValueError), 'no-input-rejected')
    for det in (True, False):
      w = M.TwoTower(image=image, text=text, deterministic=det)
      a, b = w.image_model_class(name='q'), w.text_model_class(name='q')
      run.expect(a.deterministic is det and b.deterministic is det and a.hidden_size == 8 and b.hidden_size == 6 and b.pool_type == text['pool_type'] and type(a).__name__ == 'VisionTransformerMoe' and type(b).__name__ == 'TextTransformer', 'towers-as-configured')


class Same(nn.Module):
  """In place of the encoder: the tokens themselves (and what it was made with)."""
  deterministic: bool = False
  num_heads: int = 1
  mlp_dim: int = 1
  num_layers: int = 1
  position_emb: object = None
  attention_qk_norm: bool = False

  def __call__(self, x): return x, dict(auxiliary_loss=float(self.num_layers), det=self.deterministic)


@check('C36')
def pooling(run):
  for it in range(run.n(30, 100)):
    pool = ['last', 'first', 'gap', 'gmp', 'map'][it % 5]
    B, L, H = run.rng.randint(1, 4), run.rng.randint(1, 6), run.rng.choice([2, 4])
    K = run.rng.choice([None, 0, 3])
    det = run.rng.random() < .5
    bias = run.rng.choice([0., -2.])
    zero = run.rng.random() < .4
    enc = dict(num_layers=2, num_heads=2, mlp_dim=5, **run.rng.choice([{}, dict(position_emb=dict(name='learned'))]))
    run.case('pooling', pool=pool, batch=B, length=L, classes=K, zero=zero, bias=bias)
    with mock.patch.object(M.vit_moe, 'EncoderMoe', Same):
      m = M.TextTransformer(vocab_size=7, num_classes=K, hidden_size=H, encoder=enc, pool_type=pool, deterministic=det, head_bias_init=bias, head_kernel_zero_init=zero)
      t = jnp.asarray(run.np.integers(0, 7, (B, L)))
      v = m.init(KEYS(it), t)
      y, me = m.apply(v, t)
      e = np.asarray(v['params']['Embed_0']['embedding'])
      run.expect(e.shape == (7, H), 'one-embedding-per-word')
      e = e[np.asarray(t)]
      if pool == 'map': want = np.asarray(M.vit_moe.MapHead(num_heads=2, mlp_dim=5, qk_norm=False).apply(dict(params=v['params']['MapHead']), jnp.asarray(e)))
      else: want = dict(last=e[:, -1], first=e[:, 0], gap=e.mean(1), gmp=e.max(1))[pool]
      if K:
        k = v['params']['head']
        run.expect(np.allclose(k['bias'], bias) and (not zero or not np.asarray(k['kernel']).any()) and k['kernel'].shape == (H, K), 'head-initialised')
        kern = np.asarray(run.np.normal(size=(H, K)), np.float32)
        y, me = m.apply({'params': dict(v['params'], head=dict(kernel=kern, bias=k['bias'] + 1))}, t)
        want = want @ kern + bias + 1
      run.expect(y.shape == want.shape and np.allclose(y, want, atol=1e-4, rtol=1e-3), 'pooled-as-configured', f'{pool}: {y} want {want}')
      run.expect(me == dict(auxiliary_loss=2., det=det), 'metrics-and-determinism', f'{me}')
  run.case('rejections')
  t = jnp.zeros((1, 2), jnp.int32)
  with mock.patch.object(M.vit_moe, 'EncoderMoe', Same):
    mk = lambda **k: M.TextTransformer(**dict(dict(vocab_size=7, num_classes=2, hidden_size=4, encoder=dict(num_layers=1)), **k)).init(KEYS(0), t)
    run.expect(raises(lambda: mk(pool_type='max'), NotImplementedError), 'unknown-pooling-rejected')
    run.expect(raises(lambda: mk(encoder=dict(num_layers=1, position_emb=dict(name='sincos2d', h=1, w=2))), ValueError), '2d-embeddings-rejected')


@check('C36')
def step(run):
  n = jax.device_count()
  txs = [lambda: optax.sgd(.1), lambda: optax.adam(.05), lambda: optax.sgd(.2, momentum=.9)]
  def apply_fn(variables, x, t, rngs, keys=None):
    p = variables['params']
    lg = (x @ p['a']) @ (t @ p['b']).T * jnp.exp(p['s'])
    if keys is not None: keys.append(sorted(rngs))
    return lg, flax.core.freeze(dict(img=dict(q=jnp.arange(3.)), aux=jnp.ones(2) * 3))
  for it in range(run.n(8, 60)):
    B, D = n * run.rng.choice([1, 2]), 3
    params = dict(a=jnp.asarray(run.np.normal(size=(4, D)), jnp.float32), b=jnp.asarray(run.np.normal(size=(5, D)), jnp.float32), s=jnp.float32(.2))
    x, t = jnp.asarray(run.np.normal(size=(B, 4)), jnp.float32), jnp.asarray(run.np.normal(size=(B, 5)), jnp.float32)
    tx = txs[it % 3]()
    summ = TreeSummarizer(rules=[('^params/s$', 'norm'), ('params_grads/b', 'max')]) if it % 2 else None
    run.case('step', batch=B, optimizer=it % 3, summaries=bool(summ))
    st = TrainState.create(apply_fn=apply_fn, params=params, tx=tx, rngs=U.make_rngs(('dropout', 'gating'), it))
    ref_p, ref_o = params, tx.init(params)
    f = lambda p: jnp.mean(CT.sigmoid_loss(apply_fn(dict(params=p), x, t, None)[0]))
    seen = []
    for k in range(3):
      old = st
      st, me = CT.train_step(st, x, t, CT.sigmoid_loss, summarizer=summ)
      g = jax.grad(f)(ref_p)
      want = f(ref_p)
      u, ref_o = tx.update(g, ref_o, ref_p)
      ref_p = optax.apply_updates(ref_p, u)
      same = lambda a, b: all(np.allclose(c, d, rtol=1e-3, atol=1e-4) for c, d in zip(jax.tree.leaves(a), jax.tree.leaves(b)))
      run.expect(same(st.params, ref_p) and int(st.step) == k + 1, 'gradient-applied-once', f'{st.params} want {ref_p}')
      run.expect(np.allclose(me['main_loss'], want, rtol=1e-4) and np.allclose(me['total_loss'], want, rtol=1e-4), 'mean-loss', f'{me} want {want}')
      run.expect(np.allclose(me['img']['q'], 1) and np.allclose(me['aux'], 3), 'metrics-averaged')
      nrm = lambda t_: np.sqrt(sum(np.square(np.asarray(a, np.float64)).sum() for a in jax.tree.leaves(t_)))
      run.expect(np.allclose(me['global_norm/grads'], nrm(g), rtol=1e-3) and np.allclose(me['global_norm/params'], nrm(ref_p), rtol=1e-3), 'norms')
      if summ: run.expect(any(k_.startswith('params/s_norm') and np.allclose(v, abs(float(ref_p['s'])), rtol=1e-3, atol=1e-5) for k_, v in me.items()), 'summaries', f'{sorted(me)}')
      ks = [tuple(np.asarray(a).tolist()) for a in jax.tree.leaves(st.rngs)]
      run.expect(not set(ks) & set(seen), 'keys-advance')
      seen += ks


@check('C36')
def hooks(run):
  class Model:
    def __init__(self, config, deterministic): self.config, self.det = config, deterministic
    def apply(self, v, *a, images='?', texts='?', **k):
      calls.append((self, v, a, images, texts, k)); return ('z', id(images if images is not None else texts)), {}
  for it in range(run.n(24, 100)):
    kind = ['fewshot', 'retrieval', 'zeroshot'][it % 3]
    base = ml_collections.ConfigDict(dict(name='x', size=1, q=dict(a=1)))
    over = run.rng.choice([None, ml_collections.ConfigDict(dict(size=2)), ml_collections.ConfigDict(dict(size=3, more=4))])
    before, obefore = base.to_dict(), over and over.to_dict()
    first, last = run.rng.randint(1, 5), run.rng.randint(5, 9)
    given = run.rng.choice([None, [], [2, 7], (3,)])
    tasks = run.rng.choice([{}, dict(coco=dict(data='d1', split='s')), dict(coco=dict(data='d1'), flickr=dict(data='d2'))])
    missing = run.rng.random() < .2
    run.case('hooks', kind=kind, first=first, last=last, on_steps=given, tasks=tasks, missing=missing, overrides=over and over.to_dict())
    acts, calls, models, ran = [], [], [], []
    def rec(tag):
      def f(**k):
        if missing and tag != 'fewshot': raise NotImplementedError('missing')
        acts.append((tag, k)); return lambda *a, **kk: ran.append((k.get('task'), a, kk))
      return f
    def create(config, deterministic):
      models.append(Model(config if isinstance(config, dict) else config.to_dict(), deterministic)); return models[-1]
    kw = dict(base_model_config=base, writer='w', progress_hook='p', first_step=first, train_steps=last, model_overrides=over, **({} if given is None else dict(on_steps=given)))
    with mock.patch.object(CT, 'create_flax_model', create), mock.patch.object(CT.fewshot, 'FewShotPeriodicAction', rec('fewshot')), \
        mock.patch.object(CT.evaluators, 'RetrievalPeriodicAction', rec('retrieval')), mock.patch.object(CT.evaluators, 'ZeroShotPeriodicAction', rec('zeroshot')):
      if kind == 'fewshot': h = CT.create_fewshot_hook(extra_rng_keys=('g',), **kw, **({'shots': 3} if tasks else {}))
      else: h = getattr(CT, f'create_{kind}_hook')(data_sharding='sh', every_steps=7, datasets=run.rng.choice([tasks, ml_collections.ConfigDict(tasks)]) if tasks else run.rng.choice([None, {}]), **kw)
    run.expect(base.to_dict() == before and (over is None or over.to_dict() == obefore), 'configurations-not-modified')
    off = (kind == 'fewshot' and not tasks and given is None) or (kind != 'fewshot' and (missing or not tasks))
    if off:
      run.expect(not acts and h(1, variables=2) is None, 'nothing-unless-configured', f'{acts}')
      continue
    run.expect([t for t, _ in acts] == [kind] * (len(tasks) if kind == 'retrieval' else 1), 'actions', f'{acts}')
    for i, (_, a) in enumerate(acts):
      run.expect(set(a['on_steps']) == {first, last} | set(given or ()), 'first-last-and-configured-steps', f"{a['on_steps']}")
      run.expect(a['metric_writer'] == 'w' and a['report_progress'] == 'p', 'reporting')
      f = a['apply_fn']
      del calls[:]
      x = np.ones(2)
      if kind == 'fewshot':
        f('v', x, rngs=1)
        run.expect(len(calls) == 1 and calls[0][1:] == ('v', (), x, None, dict(rngs=1)) if calls[0][3] is x else False, 'embeds-images-alone')
      else:
        r = f('v', dict(image=x, other=1))
        run.expect(r[0] == ('z', id(x)) and r[1] is None and r[2] is None and calls[-1][3] is x and calls[-1][4] is None, 'images-embedded-as-images', f'{r}')
        r = f('v', dict(labels=x))
        run.expect(r[1] == ('z', id(x)) and r[0] is None and r[2] is None and calls[-1][4] is x and calls[-1][3] is None, 'texts-embedded-as-texts', f'{r}')
        for bad in (dict(), dict(image=x, labels=x)): run.expect(raises(lambda: f('v', bad), ValueError), 'exactly-one-of-both')
        run.expect(a['data_sharding'] == 'sh' and a['every_steps'] == 7, 'options')
      mdl = calls[-1][0]
      run.expect(mdl.det is True and mdl.config == {**before, **(obefore or {})}, 'deterministic-model-as-configured', f'{mdl.config}')
      if kind == 'retrieval': run.expect(a['task'] == list(tasks)[i] and all(a[k] == v for k, v in tasks[a['task']].items()), 'each-task-with-its-options', f'{a}')
      if kind == 'zeroshot': run.expect(tuple(a['dataset_names']) == tuple(tasks) and dict(a['dataset_overrides']) == tasks, 'all-tasks-with-their-options', f'{a}')
    if kind == 'retrieval':
      h(5, variables=6)
      run.expect([r[1:] for r in ran] == [((5,), dict(variables=6))] * len(tasks) and [r[0] for r in ran] == list(tasks), 'all-tasks-evaluated')
