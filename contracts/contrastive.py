"""C36: contrastive training (vmoe/projects/contrastive/*.py)."""
import types as _types
import z3
from vc import core, loader
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, term, wrap
from vc.engine import contract
from vc.stubs import Over, log_sigmoid, norm
from contracts.train_step import use, St, Cfg
from contracts.models import lin, at, eqv
from contracts.training import Kw, Conf, Step, _on_steps

TR = 'vmoe.projects.contrastive.trainer'
MO = 'vmoe.projects.contrastive.models'
EV = 'vmoe.projects.contrastive.evaluators'
ns = _types.SimpleNamespace


def ok(name, b): obligation(name, z3.BoolVal(bool(b)))


@contract('C36', functions=[f'{TR}.sigmoid_loss'], max_paths=60)
def pairs_loss():
  """Any number of images and texts, any logits, with or without leading dimensions."""
  m = loader.load(TR)
  lead = core.choose(3)
  D = [T.new_dim(f'lead{k}') for k in range(lead)]
  N = T.new_dim('N')
  x = T.fresh_array('logits', (*D, N, N))
  core.assumption('assumed: jax.nn.log_sigmoid(x) = -log(1 + exp(-x)) over the reals')
  r = m.sigmoid_loss(x)
  ok('one loss per image', r.ndim == lead + 1)
  ix = [T.ivar(d.atoms[0], f'l{k}') for k, d in enumerate(D)]
  i = T.ivar(N.atoms[0], 'i')
  y = log_sigmoid(T.where(T.eye(N, dtype='bool'), x, -x))
  obligation('the sum over all texts of the logistic loss: the own text is positive, all others negative', r.el(*ix, i) == -T.reduce_sum(y, -1).el(*ix, i))


@contract('C36', functions=[f'{TR}.sigmoid_loss'], max_paths=60)
def pairs_loss_rejections():
  """Any shape that is not square."""
  m = loader.load(TR)
  which = core.choose(3)
  A, B = T.new_dim('A'), T.new_dim('B')
  if which == 2: shp = (A,)
  elif which == 1:
    assume(lin(A) != lin(B)); shp = (A, B)
  else:
    assume(lin(A) != lin(B)); shp = (T.new_dim('L'), B, A)
  try: m.sigmoid_loss(T.fresh_array('logits', shp))
  except ValueError: ok('logits that are not square are rejected', True)
  else: ok('logits that are not square are rejected', False)


@contract('C36', functions=[f'{MO}.TwoTower.__call__'], max_paths=200)
def two_towers():
  """Any embeddings of any size, any scale and bias, any subset of the inputs."""
  V = loader.load(MO)
  c = core.cur()
  M, N, D = [T.new_dim(n) for n in 'MND']
  have = core.choose(4)
  bias = core.choose(2)
  img, txt = ('images' if have & 1 else None), ('texts' if have & 2 else None)
  ei, et = T.fresh_array('eimg', (M, D)), T.fresh_array('etxt', (N, D))
  log = []
  def tower(tag, want, out, me):
    def make(**k):
      ok('one tower of each kind', k == dict(name=tag))
      def call(x):
        ok('each tower embeds its own input', x is want)
        log.append(tag)
        return out, me
      return call
    return make
  mi, mt = object(), object()
  m = object.__new__(V.TwoTower)
  m.__dict__.update(image_model_class=tower('img', 'images', ei, mi), text_model_class=tower('txt', 'texts', et, mt), deterministic=core.choose(2),
                    scale_init=fresh_real('scale_init'), bias_init=fresh_real('bias_init') if bias else None)
  assume(m.scale_init.t > 0)
  inits = {}
  ini = Over(V.nn.initializers, constant=lambda v: ('constant', v))
  old = V.TwoTower.param
  def param(self, name, init, shape=(), dtype=None, **k):
    inits[name] = (init, tuple(shape))
    return old(self, name, init, shape, dtype)
  with use(V, nn=Over(V.nn, initializers=ini)):
    V.TwoTower.param = param
    try: r = m(img, txt)
    except ValueError:
      ok('at least one input is needed', have == 0); return
    finally: V.TwoTower.param = old
  out, me = r
  ok('at least one input is needed', have != 0)
  ok('exactly the towers of the given inputs run, once', sorted(log) == [t for t, b in (('img', have & 1), ('txt', have & 2)) if b])
  ok('metrics of the towers', all(me.get(t) is (v if b else None) for t, v, b in (('img', mi, have & 1), ('txt', mt, have & 2))))
  eps = z3.RealVal('1/100000000')
  unit = lambda e: e / (norm(e, axis=-1, keepdims=True) + 1e-8)
  i, j, d = T.ivar(M.atoms[0], 'i'), T.ivar(N.atoms[0], 'j'), T.ivar(D.atoms[0], 'd')
  if have in (1, 2):
    e, a, q = (ei, i, M) if have == 1 else (et, j, N)
    ok('the embeddings', out.ndim == 2 and set(me) == {['', 'img', 'txt'][have]} and not inits)
    obligation('of length one', at(out, a, d) == unit(e).el(a, d))
    return
  (s_init, s_shape), s = inits.pop('s'), [v for (k, n), (o, v) in c.nn_params.items() if n == 's'][0]
  ok('one scale', s_shape == () and s_init[0] == 'constant')
  obligation('that starts at the configured one', core.to_real(core.num(term(s_init[1]) if not isinstance(s_init[1], T.SArr) else s_init[1].el())) == T.log(T.asarr(m.scale_init)).el())
  es = T.exp(s).el()
  obligation('scale reported', (me['scale'].el() if isinstance(me['scale'], T.SArr) else term(me['scale'])) == es)
  want = es * T.einsum('md,nd->mn', unit(ei), unit(et)).el(i, j)
  ok('a bias only if configured', set(inits) == ({'b'} if bias else set()))
  if bias:
    b_init, b_shape = inits['b']
    b = [v for (k, n), (o, v) in c.nn_params.items() if n == 'b'][0]
    ok('one bias that starts at the configured one', b_shape == () and b_init == ('constant', m.bias_init))
    want = want + b.el()
  ok('one logit per pair', out.ndim == 2)
  obligation('logit of every pair: scaled inner product plus bias', at(out, i, j) == want)


@contract('C36', functions=[f'{MO}.TwoTower.image_model_class', f'{MO}.TwoTower.text_model_class'], max_paths=100)
def tower_options():
  """Any class names, options and determinism."""
  V = loader.load(MO)
  which = core.choose(2)
  named = core.choose(2)
  opt, opt2, wr = object(), object(), object()
  det = object()
  mine = dict(hidden=opt, encoder=opt2)
  if named: mine['name'] = 'Some(3)'
  before = dict(mine)
  other = dict(name='Other', hidden=object(), q=1)
  m = object.__new__(V.TwoTower)
  m.__dict__.update(image=other if which else mine, text=mine if which else other, deterministic=det)
  seen = []
  def parse(s, mod):
    seen.append((s, mod))
    return (lambda *a, **k: ('model', a, k)), (3,), dict(written=wr, hidden=7)
  with use(V, utils=ns(parse_call=parse)):
    p = (V.TwoTower.text_model_class if which else V.TwoTower.image_model_class)
    f = p.func(m) if hasattr(p, 'func') else p.fget(m)
    r = f(name='tower')
  dflt, mod = [('VisionTransformerMoe', V._default_image_module), ('TextTransformer', V._default_text_module)][which]
  ok('the named class, by default a vision or text transformer', seen == [('Some(3)' if named else dflt, mod)])
  ok('with exactly its own options and the determinism', r == ('model', (3,), dict(written=wr, hidden=opt, encoder=opt2, deterministic=det, name='tower')))
  ok('the configuration is kept', mine == before)


@contract('C36', functions=[f'{MO}.TextTransformer.__call__', f'{MO}.TextTransformer.apply_pooling'], max_paths=400)
def text_tower():
  """Any texts, sizes and encoded tokens; every pooling."""
  V = loader.load(MO)
  B, L, H = [T.new_dim(n) for n in 'BLH']
  pool = ['last', 'first', 'gap', 'gmp', 'map', 'other'][core.choose(6)]
  head = core.choose(2)
  pe = [None, dict(name='learned'), dict(name='sincos2d', h=2)][core.choose(3)] if pool == 'last' else None
  enc = dict(num_heads=object(), mlp_dim=object(), moe=object(), **({} if pe is None else dict(position_emb=pe)))
  qk = object() if core.choose(2) else None
  if qk: enc['attention_qk_norm'] = qk
  before = dict(enc)
  det = object()
  m = object.__new__(V.TextTransformer)
  vocab, classes, zero = object(), (T.new_dim('K') if head else None), core.choose(2)
  m.__dict__.update(vocab_size=vocab, num_classes=classes, hidden_size=H, encoder=enc, pool_type=pool, deterministic=det, head_bias_init=fresh_real('head_bias'), head_kernel_zero_init=bool(zero))
  emb, y = T.fresh_array('embedded', (B, L, H)), T.fresh_array('encoded', (B, L, H))
  pooled, logits = T.fresh_array('pooled', (B, H)), (T.fresh_array('logits', (B, classes)) if head else None)
  text, me = object(), object()
  seen = {}
  def layer(tag, want, out):
    def make(*a, **k):
      seen[tag] = (a, k)
      def call(x):
        seen[tag + '.in'] = x
        if want is not None: ok(f'input of the {tag}', x is want)
        return out
      return call
    return make
  ini = Over(V.nn.initializers, constant=lambda v: ('constant', v), zeros='zeros')
  nn = Over(V.nn, Embed=layer('embedding', text, emb), Dense=layer('head', None, logits), initializers=ini, linear=ns(default_kernel_init='default'))
  vm = ns(EncoderMoe=layer('encoder', emb, (y, me)), MapHead=layer('map', y, pooled))
  with use(V, nn=nn, vit_moe=vm):
    try: r = m(text)
    except ValueError: ok('only 2-d embeddings are rejected', pe is not None and pe['name'] == 'sincos2d'); return
    except NotImplementedError: ok('only unknown poolings are rejected', pool == 'other'); return
  ok('2-d embeddings and unknown poolings are rejected', pool != 'other' and not (pe and pe['name'] == 'sincos2d'))
  out, me2 = r
  a, k = seen['embedding']
  ok('one embedding per word', (k.get('num_embeddings', a[0] if a else None) is vocab) and k.get('features', a[1] if len(a) > 1 else None) is H)
  ok('the encoder as configured', seen['encoder'] == ((), dict(before, name='Encoder', deterministic=det)) and enc == before)
  ok('metrics of the encoder', me2 is me)
  p = seen['head.in'] if head else out
  b, h = T.ivar(B.atoms[0], 'b'), T.ivar(H.atoms[0], 'h')
  ok('one vector per text', p.ndim == 2)
  if pool == 'last': obligation('the last token', at(p, b, h) == at(y, b, lin(L) - 1, h))
  elif pool == 'first': obligation('the first token', at(p, b, h) == at(y, b, z3.IntVal(0), h))
  elif pool == 'gap': obligation('the mean of the tokens', at(p, b, h) == T.reduce_mean(y, 1).el(b, h))
  elif pool == 'gmp': obligation('the maximum over the tokens', at(p, b, h) == T.reduce_max(y, 1).el(b, h))
  else:
    ok('attention pooling', p is pooled)
    a, k = seen['map']
    ok('attention pooling as configured', not a and k.get('num_heads') is enc['num_heads'] and k.get('mlp_dim') is enc['mlp_dim'] and (k.get('qk_norm', False) is qk if qk else not k.get('qk_norm', False)))
  if head:
    a, k = seen['head']
    ok('logits of every class', out is logits and k.get('features', a[0] if a else None) is classes)
    ok('initialisation of the head', eqv(k['bias_init'], ('constant', m.head_bias_init)) is not None and k['bias_init'] == ('constant', m.head_bias_init) and k['kernel_init'] == ('zeros' if zero else 'default'))


@contract('C36', functions=[f'{TR}.train_step'], max_paths=60)
def contrastive_step():
  """Any batch size, loss, metrics, model and optimizer."""
  m = loader.load(TR)
  B, L = T.new_dim('pairs'), T.new_dim('layers')
  img, txt, logits = object(), object(), object()
  loss, other, aux = T.fresh_array('loss', (B,)), T.fresh_array('other', (L, B)), T.fresh_array('aux', (L,))
  has = core.choose(2)
  params, grads, steps = object(), dict(a=object()), object()
  rngs, now, nxt, new = (object() for _ in range(4))
  log = dict(applied=[], calls=0)
  def loss_fn(x):
    ok('loss of the logits of the model', x is logits); return loss
  def apply_fn(variables, *a, rngs=None, **k):
    ok('the model gets the parameters, the images, the texts and its keys', variables == {'params': params} and ((len(a) == 2 and a[0] is img and a[1] is txt and not k) or (not a and k == dict(images=img, texts=txt)) or (len(a) == 1 and a[0] is img and k == dict(texts=txt))) and rngs is now)
    log['calls'] += 1
    me = dict(other=other)
    if has: me['auxiliary_loss'] = aux
    return logits, me
  def grad(f=None, argnums=0, has_aux=False, **k):
    if f is None: return lambda f_: grad(f_, argnums, has_aux)
    ok('gradient with respect to the parameters', argnums in (0, (0,)) and has_aux)
    def g(*a):
      ok('of the current parameters on the given batch with the current keys', a[0] is params and a[1] is img and a[2] is txt and a[3] is rngs)
      log['total'], aux_ = f(*a)
      return grads, aux_
    return g
  def accumulate(f, microsteps):
    ok('microsteps as requested', microsteps is steps); return f
  def split(t, *a):
    ok('the keys of the state are split', t is rngs); return now, nxt
  norms = {k: fresh_real(k) for k in ('grads', 'updates', 'params')}
  def apply_gradients(g, **k):
    log['applied'].append(g)
    ok('with the next keys', k == {'rngs': nxt})
    return new, dict(norms)
  state = St(params=params, rngs=rngs, apply_fn=apply_fn, apply_gradients_and_compute_global_norms=apply_gradients)
  with use(m, jax=Over(m.jax, grad=grad), accumulate_gradients_and_metrics=accumulate, utils=ns(tree_rngs_split=split)):
    st, me = m.train_step(state, img, txt, loss_fn, microsteps=steps)
  ok('the updated state is returned', st is new)
  ok('the gradient is applied exactly once', log['calls'] == 1 and len(log['applied']) == 1 and log['applied'][0] is grads)
  val = lambda x: core.num(term(x)) if not isinstance(x, T.SArr) else core.num(x.el())
  main = val(T.reduce_mean(loss))
  a = val(T.reduce_mean(aux)) if has else z3.RealVal(0)
  obligation('main loss: the mean over the batch', val(me['main_loss']) == main)
  obligation('the gradient is that of the mean loss, plus the auxiliary loss the model reports itself', z3.And(val(log['total']) == main + a, val(me['total_loss']) == main + a))
  obligation('metrics are averaged', val(me['other']) == val(T.reduce_mean(other)))
  for k in norms: obligation('norms reported', val(me[f'global_norm/{k}']) == norms[k].t)


@contract('C36', functions=[f'{TR}.create_fewshot_hook', f'{TR}.create_retrieval_hook', f'{TR}.create_zeroshot_hook'], max_paths=2000)
def contrastive_hooks():
  """Arbitrary models, tasks and steps; any type and number (up to two) of configured steps."""
  m = loader.load(TR)
  which = core.choose(3)
  first, last, more, given = _on_steps(core.choose(2) * 2, core.choose(3), core.choose(2))
  have_on = core.choose(2)
  base = Conf(name='base', size=1)
  before = dict(base)
  overrides = [None, Conf(size=2, extra=3)][core.choose(2)]
  kw = dict(on_steps=given) if have_on else {}
  other = dict(opt=object())
  if which == 0 and not have_on and core.choose(2): other = {}
  # (no task / tasks as a mapping); the library may be missing.
  tasks = {} if which else None
  if which and core.choose(2): tasks = dict(a=dict(data=Step('da')), b=dict(data=Step('db')))
  missing = which and tasks and core.choose(2)
  log, models = [], []
  z = object()
  class Model:
    def __init__(self, k): self.k = k
    def apply(self, v, *a, **k):
      log.append(('apply', self.k, v, a, k)); return z, object()
  def create(**k):
    models.append((dict(k['config']), k['deterministic'])); return Model(len(models) - 1)
  acts = []
  def rec(tag):
    def f(**k):
      if missing: raise NotImplementedError('missing')
      acts.append((tag, k))
      return lambda *a, **kk: log.append(('act', tag, k.get('task'), a, kk))
    return f
  writer, prog, keys, shard, es, esec = (object() for _ in range(6))
  dk = {} if which == 0 else dict(every_steps=es, every_secs=esec)
  with use(m, create_flax_model=create, fewshot=ns(FewShotPeriodicAction=rec('fewshot')), ml_collections=ns(ConfigDict=Conf),
           evaluators=ns(RetrievalPeriodicAction=rec('retrieval'), ZeroShotPeriodicAction=rec('zeroshot'))):
    common = dict(base_model_config=base, writer=writer, progress_hook=prog, first_step=first, train_steps=last, model_overrides=overrides, **kw, **other)
    if which == 0: h = m.create_fewshot_hook(extra_rng_keys=keys, **common)
    else: h = [m.create_retrieval_hook, m.create_zeroshot_hook][which - 1](datasets=tasks if tasks or core.choose(2) else None, data_sharding=shard, every_steps=es, every_secs=esec, **common)
  tag = ['fewshot', 'retrieval', 'zeroshot'][which]
  ok('neither configuration is modified', dict(base) == before and (not overrides or dict(overrides) == dict(size=2, extra=3)))
  off = (which == 0 and not kw and not other) or (which and (missing or not tasks))
  if off:
    ok('nothing is evaluated unless configured and possible', not acts and h(1, variables=2) is None)
    return
  n = 2 if which == 1 else 1
  ok('one action per retrieval task, one for all others', [t for t, _ in acts] == [tag] * n)
  for i, (_, a) in enumerate(acts):
    ok('runs on the first, the last and every configured step', set(a['on_steps']) == {first, last} | set(more if have_on else ()))
    ok('reports to the writer and the progress', a['metric_writer'] is writer and a['report_progress'] is prog)
    ok('with the other options as configured', all(a[k] is v for k, v in {**other, **dk}.items()))
    if which == 0: ok('with the random keys', a['rng_keys'] is keys)
    else: ok('on the given devices', a['data_sharding'] is shard)
    if which == 1: ok('every task with its own options', a['task'] == 'ab'[i] and a['data'] is tasks['ab'[i]]['data'])
    if which == 2: ok('all tasks with their options', tuple(a['dataset_names']) == ('a', 'b') and a['dataset_overrides'] == tasks)
    f, v, x = a['apply_fn'], object(), object()
    del log[:]
    if which == 0:
      rg = object()
      f(v, x, rngs=rg)
      ok('embeds the images alone', [l[2:] for l in log] == [(v, (), dict(images=x, texts=None, rngs=rg))])
    else:
      r = f(v, dict(image=x))
      ok('images are embedded alone, as images', r == (z, None, None) and log[-1][2:] == (v, (), dict(images=x, texts=None)))
      r = f(v, dict(labels=x))
      ok('texts are embedded alone, as texts', r == (None, z, None) and log[-1][2:] == (v, (), dict(images=None, texts=x)))
      for bad in (dict(), dict(image=x, labels=x), dict(image=None, labels=None)):
        try: f(v, bad)
        except ValueError: ok('exactly one of both', True)
        else: ok('exactly one of both', False)
    k = log[-1][1]
    ok('by a deterministic model of the base configuration with the overrides', models[k] == ({**before, **(overrides or {})}, True))
  if which == 1:
    del log[:]
    h(3, variables=4)
    ok('all tasks are evaluated in order', [l[2:] for l in log] == [('a', (3,), dict(variables=4)), ('b', (3,), dict(variables=4))])


@contract('C36', functions=[f'{EV}.ZeroShotPeriodicAction._make_callback_fn', f'{EV}.RetrievalPeriodicAction._make_callback_fn'], max_paths=100, bounded='two tasks or metrics')
def contrastive_reports():
  """Arbitrary results and further values."""
  m = loader.load(EV)
  which = core.choose(2)
  timed = core.choose(2)
  step, var = object(), object()
  res = {k: object() for k in ('a', 'b')}
  wrote, wraps = [], []
  writer = ns(write_scalars=lambda *a: wrote.append(a))
  def prog(name, **k):
    wraps.append(name)
    return lambda f: f
  rp = ns(timed=prog) if timed else None
  clock = iter(range(100))
  with use(m, time=ns(time=lambda: next(clock))):
    if which == 0:
      ev = ns(datasets=dict(a=1, b=2), evaluate=lambda v, t: dict(accuracy=res[t]) if v is var else None)
      o = object.__new__(m.ZeroShotPeriodicAction)
      f = o._make_callback_fn(evaluator=ev, metric_writer=writer, report_progress=rp, report_progress_name='zs')
      want = {f'zs/{t}/accuracy': res[t] for t in res}
    else:
      ev = ns(evaluate=lambda v: dict(txt2img=dict(r1=res['a']), img2txt=dict(r1=res['b'])) if v is var else None)
      o = object.__new__(m.RetrievalPeriodicAction)
      f = o._make_callback_fn(evaluator=ev, task='coco', metric_writer=writer, report_progress=rp, report_progress_name='rt')
      want = {'rt/coco/txt2img/r1': res['a'], 'rt/coco/img2txt/r1': res['b']}
    extra = object()
    f(step, None, variables=var, extra=extra, nothing=None)
  ok('written once, under its step', len(wrote) == 1 and wrote[0][0] is step)
  d = wrote[0][1]
  ok('every result under its own name', all(d[k] is v for k, v in want.items()))
  ok('further values are kept, missing ones left out', d['extra'] is extra and 'nothing' not in d)
  ok('only durations beside', all(k in want or k == 'extra' or k.endswith('duration_secs') for k in d))
  ok('time is measured if asked for', wraps == (['zs' if which == 0 else 'rt'] if timed else []))
