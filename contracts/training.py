"""C33, C35: the training step, training losses and summaries; models, hooks and configuration strings (vmoe/train/*.py, vmoe/utils.py)."""
import types as _types
import numpy as np
import z3
from vc import core, loader, loops
from vc import tensor as T
from vc.core import assume, obligation, fresh_int, fresh_real, fresh_obj, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use, St, Cfg

MOD = 'vmoe.train.trainer'
UTILS = 'vmoe.utils'
STATE = 'vmoe.train.train_state'
SUMM = 'vmoe.train.tree_summarizer'
ACT = 'vmoe.train.periodic_actions'
ns = _types.SimpleNamespace
Obj = core.sort('Obj')


def ok(name, b): obligation(name, z3.BoolVal(bool(b)))


# ------------------------------------------------------------------------ C33 ----
@contract('C33', functions=[f'{MOD}.train_step'], max_paths=60)
def step_loss():
  """Any batch size, any loss and metric values; the model, the loss and the optimizer are arbitrary."""
  m = loader.load(MOD)
  B, L = T.new_dim('examples'), T.new_dim('layers')
  img, lab = T.fresh_array('images', (B,)), T.fresh_array('labels', (B,))
  logits, loss = T.fresh_array('logits', (B,)), T.fresh_array('loss', (B,))
  auxes = T.fresh_array('aux', (L,))
  other = T.fresh_array('other', (L, B))
  which = core.choose(3)      # no auxiliary loss; a number; one per layer
  aux = [None, fresh_real('aux'), auxes][which]
  log = dict(calls=0)
  params, grads, steps = object(), dict(a=object()), object()
  loss_ = lambda a, b: (ok('loss of the predictions against the given labels', a is logits and b is lab), loss)[1]
  rngs, now, nxt, new = object(), object(), object(), object()
  def apply_fn(variables, images, rngs=None, **k):
    ok('the model gets the given parameters, images and its keys', variables == {'params': params} and images is img and rngs is now and not k)
    log['calls'] += 1
    me = dict(other=other)
    if aux is not None: me['auxiliary_loss'] = aux
    return logits, (core.choose(2) and me or dict(me))
  def grad(f=None, argnums=0, has_aux=False, **k):
    if f is None: return lambda f_: grad(f_, argnums, has_aux)
    ok('gradient with respect to the parameters', argnums in (0, (0,)) and has_aux)
    def g(*a):
      ok('of the current parameters on the given batch with the current keys', a[0] is params and a[1] is img and a[2] is lab and a[3] is rngs)
      total, aux_ = f(*a)
      log['total'] = total
      return grads, aux_
    return g
  def accumulate(f, microsteps):
    ok('microsteps as requested', microsteps is steps)
    return f
  def split(t, *a):
    ok('the keys of the state are split', t is rngs)
    return now, nxt
  norms = {k: fresh_real(k) for k in ('grads', 'updates', 'params')}
  def apply_gradients(g, **k):
    log.setdefault('applied', []).append(g)
    ok('with the next keys', k == {'rngs': nxt})
    return new, dict(norms)
  state = St(params=params, rngs=rngs, apply_fn=apply_fn, apply_gradients_and_compute_global_norms=apply_gradients)
  core.assumption('assumed: jax.grad(f, has_aux=True) evaluates f once and returns its gradient and auxiliary output')
  with use(m, jax=Over(m.jax, grad=grad), accumulate_gradients_and_metrics=accumulate, utils=ns(tree_rngs_split=split)):
    r = m.train_step(state, img, lab, loss_, microsteps=steps)
  st, me = r
  ok('the updated state is returned', st is new)
  ok('the gradient is applied exactly once', len(log['applied']) == 1 and log['applied'][0] is grads)
  b, l, l2 = T.bvar(B.atoms[0], 'b'), T.bvar(L.atoms[0], 'l'), T.bvar(L.atoms[0], 'l2')
  want = T.reduce_mean(loss)
  val = lambda x: core.num(term(x)) if not isinstance(x, T.SArr) else core.num(x.el())
  main = val(want)
  obligation('main loss: the mean over the batch', val(me['main_loss']) == main)
  a = z3.RealVal(0) if aux is None else aux.t if which == 1 else val(T.reduce_mean(auxes))
  obligation('total loss: main plus mean auxiliary loss, if any', val(me['total_loss']) == main + a)
  obligation('the gradient is that of the total loss', val(log['total']) == main + a)
  obligation('every metric of the model is averaged', val(me['other']) == val(T.reduce_mean(other)))
  if aux is not None: obligation('auxiliary loss reported', val(me['auxiliary_loss']) == a)
  for k in norms: obligation(f'norms reported', val(me[f'global_norm/{k}']) == norms[k].t)
  ok('nothing else is reported', set(me) == {'main_loss', 'total_loss', 'other'} | ({'auxiliary_loss'} if aux is not None else set()) | {f'global_norm/{k}' for k in norms})


@contract('C33', functions=[f'{STATE}.TrainState.apply_gradients_and_compute_global_norms'], max_paths=60)
def state_update():
  """Any optimizer, gradients and parameters."""
  m = loader.load(STATE)
  I = z3.IntSort()
  Upd = z3.Function('OptUpdates', Obj, Obj, Obj, Obj); New = z3.Function('OptState', Obj, Obj, Obj, Obj)
  App = z3.Function('Applied', Obj, Obj, Obj); Norm = z3.Function('Norm', Obj, z3.RealSort())
  n = [0]
  def update(g, s, p=None, **k):
    n[0] += 1
    return core.SObj(Upd(g.t, s.t, p.t)), core.SObj(New(g.t, s.t, p.t))
  p, o, g = (fresh_obj('Obj', x) if False else core.SObj(z3.Const(core.cur().fresh(x), Obj)) for x in ('params', 'opt', 'grads'))
  step, key = fresh_int('step', 0), object()
  state = St(params=p, opt_state=o, step=step, rngs=object(), apply_fn=object(), tx=ns(update=update))
  ox = Over(m.optax, apply_updates=lambda a, b: core.SObj(App(a.t, b.t)), global_norm=lambda a: wrap(Norm(a.t)))
  core.assumption('assumed: optax.apply_updates adds the updates, optax.global_norm is the norm of all leaves (optax)')
  with use(m, optax=ox):
    r, me = m.TrainState.apply_gradients_and_compute_global_norms(state, g, rngs=key)
  u = Upd(g.t, o.t, p.t)
  ok('the optimizer runs once', n[0] == 1)
  obligation('parameters: the old ones with the updates applied', r.params.t == App(p.t, u))
  obligation('optimizer state: the one after this update', r.opt_state.t == New(g.t, o.t, p.t))
  obligation('one more step', term(r.step) == step.t + 1)
  ok('the given keys, the same model and optimizer', r.rngs is key and r.apply_fn is state.apply_fn and r.tx is state.tx)
  ok('the given state is not modified', state.params is p and state.opt_state is o and state.step is step)
  obligation('norms of gradients, updates and the new parameters', z3.And(term(me['grads']) == Norm(g.t), term(me['updates']) == Norm(u), term(me['params']) == Norm(App(p.t, u))))
  ok('only these', set(me) == {'grads', 'updates', 'params'})


@contract('C33', functions=[f'{MOD}.get_loss_fn'], max_paths=60)
def losses():
  """Every name, arbitrary predictions of any size; unknown names."""
  m = loader.load(MOD)
  B, C = T.new_dim('B'), T.new_dim('C')
  x, y = T.fresh_array('logits', (B, C)), T.fresh_array('labels', (B, C))
  log = []
  def rec(tag):
    def f(*a, **k):
      log.append((tag, a, k)); return tag
    return f
  xent = T.fresh_array('xent', (B, C))
  def sig(a, b, **k):
    log.append(('sigmoid', (a, b), k)); return xent
  ens = ns(**{n: rec(n) for n in ('ensemble_softmax_xent_train', 'ensemble_softmax_xent_eval', 'label_pred_ensemble_softmax', 'ensemble_sigmoid_xent_train', 'ensemble_sigmoid_xent_eval', 'label_pred_ensemble_sigmoid')})
  name = ['softmax_xent', 'sigmoid_xent', 'ensemble_softmax_xent', 'ensemble_sigmoid_xent', 'softmax', 'Softmax_xent', ''][core.choose(7)]
  kw = [{}, dict(ensemble_size=3)][core.choose(2)]
  with use(m, optax=Over(m.optax, softmax_cross_entropy=rec('softmax'), sigmoid_binary_cross_entropy=sig), ensemble=ens):
    if name not in ('softmax_xent', 'sigmoid_xent', 'ensemble_softmax_xent', 'ensemble_sigmoid_xent'):
      try: m.get_loss_fn(name, **kw)
      except ValueError: ok('unknown losses are rejected', True)
      else: ok('unknown losses are rejected', False)
      return
    tr, ev, pr = m.get_loss_fn(name, **kw)
    outs = []
    for f in (tr, ev):
      outs.append(f(x, y))
      tag, a, k = log.pop()
      ok('the loss of the predictions against the labels with the given options', a[0] is x and a[1] is y and len(a) == 2 and k == kw)
      want = {'softmax_xent': 'softmax', 'sigmoid_xent': 'sigmoid'}.get(name) or name + ('_train' if f is tr else '_eval')
      ok('the named loss for training and for evaluation', tag == want)
    if name == 'sigmoid_xent':
      b = T.ivar(B.atoms[0], 'b')
      for o in outs:
        ok('one loss per example', o.ndim == 1)
        obligation('summed over the classes', o.el(b) == T.reduce_sum(xent, -1).el(b))
    else: ok('one loss per example', all(o == ({'softmax_xent': 'softmax'}.get(name) or name + s) for o, s in zip(outs, ('_train', '_eval'))))
    p = pr(x)
    if name.startswith('ensemble'):
      tag, a, k = log.pop()
      ok('prediction of the ensemble with the given options', tag == 'label_pred_' + name.replace('_xent', '') and a == (x,) and k == kw)
    else:
      b, c = T.ivar(B.atoms[0], 'b'), T.ivar(C.atoms[0], 'c')
      obligation('the class with the highest score', z3.And(p.el(b) >= 0, p.el(b) < T.dim_term(C), x.el(b, c) <= x.el(b, p.el(b))))
  ok('nothing else is evaluated', not log)


@contract('C33', functions=[f'{SUMM}.TreeSummarizer.__post_init__', f'{SUMM}.TreeSummarizer.__call__', f'{SUMM}.TreeSummarizer._summarize'], bounded='at most 3 arrays and 2 rules, arrays of at most 2 entries', max_paths=400)
def summaries():
  """Arbitrary pattern matches; the transformations are arbitrary functions."""
  m = loader.load(SUMM)
  nk, nr = 1 + core.choose(3), 1 + core.choose(2)
  keys = [f'k{i}' for i in range(nk)]
  hit = {(r, k): core.fresh_bool('match') for r in range(nr) for k in keys}
  class Pat:
    pattern = 'p'
    def __init__(self, r): self.r = r
    def search(self, k): return object() if decide(hit[self.r, k].t) else None
  pats = [Pat(r) for r in range(nr)]
  rx = ns(compile=lambda p, flags=0: p if isinstance(p, Pat) else pats[int(p[1:])], Pattern=Pat)
  rules = [f'r{r}' if core.choose(2) else (f'r{r}', f't{r}', 'u') for r in range(nr)]
  tree = {k: object() for k in keys}
  class Out:
    def __init__(self, v, ts): self.v, self.ts, self.size, self.shape = v, ts, 1, ()
    def __getitem__(self, i): return (self.v, self.ts, i)
  limit = 1
  fx = ns(traverse_util=ns(flatten_dict=lambda d, sep=None: dict(d)), serialization=ns(to_state_dict=lambda t: t))
  with use(m, re=rx, flax=fx):
    s = m.TreeSummarizer(rules=rules, max_summary_values=limit)
    old = m.TreeSummarizer._transform
    m.TreeSummarizer._transform = classmethod(lambda cls, v, ts: ('_' + '_'.join(ts), Out(v, tuple(ts))))
    try: out = list(s(tree))
    finally: m.TreeSummarizer._transform = old
  want = []
  for k in keys:
    for r in range(nr):
      if decide(hit[r, k].t):
        ts = () if isinstance(rules[r], str) else rules[r][1:]
        want.append((k + '_' + '_'.join(ts), (tree[k], tuple(ts), ())))
  ok('one summary for each array and rule that matches it', sorted(map(repr, out)) == sorted(map(repr, want)))


@contract('C33', functions=[f'{SUMM}.TreeSummarizer._transform'], max_paths=400, bounded='arrays of rank two, at most two transformations')
def summary_values():
  """Any sizes and values."""
  m = loader.load(SUMM)
  A, B = T.new_dim('A'), T.new_dim('B')
  x = T.fresh_array('x', (A, B))
  ops = ['mean', 'sum', 'min', 'max', 'norm']
  o1 = ops[core.choose(5)]
  ax = [None, (0,), (1,), 0, 1, (0, 1)][core.choose(6)]
  t1 = o1 if ax is None else (o1, ax)
  axes = None if ax is None else (ax,) if isinstance(ax, int) else ax
  suffix, out = m.TreeSummarizer._transform(x, [t1])
  ok('named after the operation', suffix == f'_{o1}' + ('' if axes is None else f'{axes}'))
  i, j = T.ivar(A.atoms[0], 'i'), T.ivar(B.atoms[0], 'j')
  red = (0, 1) if axes is None else axes
  f = dict(mean=lambda v: T.reduce_mean(v, red), sum=lambda v: T.reduce_sum(v, red), norm=None, min=None, max=None)[o1]
  idx = [() if k in red else (i, j)[k] for k in range(2)]
  ok('the other axes are kept, those are of size one', out.ndim == 2 and [len(a) for a in out.axes] == [0 if k in red else 1 for k in range(2)])
  keep = [(i, j)[k] for k in range(2) if k not in red]
  got = out.el(*idx)
  if f is not None: obligation('the operation over exactly these axes', got == f(x).el(*keep))
  elif o1 == 'norm':
    obligation('root of the sum of squares over exactly these axes', got == T.sqrt(T.reduce_sum(x * x, red)).el(*keep))
  else:
    y = x.el(i, j)
    obligation('bounds every entry over these axes', (got <= y) if o1 == 'min' else (got >= y))
  try: m.TreeSummarizer._transform(x, [t1, ('median', 0) if core.choose(2) else 'median'])
  except ValueError: ok('unknown operations are rejected', True)
  else: ok('unknown operations are rejected', False)


# ------------------------------------------------------------------------ C35 ----
class Conf(dict):
  """A ConfigDict; copies are new objects, so that modifications are observable."""
  def __getattr__(self, a):
    if a.startswith('__') or a not in self: raise AttributeError(a)
    return self[a]
  def to_dict(self): return dict(self)
  def copy_and_resolve_references(self): return Conf(self)
  def unlocked(self): return Ctxm()


class Kw(dict):
  """Recorded keyword arguments; anything not given by keyword is out of reach."""
  def __missing__(self, k): raise core.Unsupported(f'{k} is not given by keyword')


class Ctxm:
  def __enter__(self): return self
  def __exit__(self, *a): return False


class Step:
  """An arbitrary step number."""
  def __init__(self, n): self.n = n


def _on_steps(a, b, same):
  first, last = Step('first'), Step('last')
  more = [Step('x'), Step('y')][:a]
  given = [list, tuple, set][b](more)
  return first, first if same else last, more, given


@contract('C35', functions=[f'{MOD}.create_evaluation_hook', f'{MOD}.create_fewshot_hook', f'{MOD}.create_progress_hook', f'{MOD}.override_base_config'], max_paths=1000)
def hooks():
  """Arbitrary models, data sets, losses and steps; any type and number (up to two) of configured steps."""
  m = loader.load(MOD)
  which = core.choose(3)
  first, last, more, given = _on_steps(core.choose(3), core.choose(3), core.choose(2))
  have_on = core.choose(2)
  conf = dict(on_steps=given) if have_on else {}
  other = dict(every_steps=Step('every')) if core.choose(2) or which != 1 else {}
  if which == 1 and not have_on and not other: conf = {}
  base = Conf(name='base', size=1, shared=object())
  before = dict(base)
  overrides = [None, Conf(), Conf(size=2, extra=3)][core.choose(3)] if which < 2 else None
  over = dict(overrides) if overrides else {}
  log = []
  class Model:
    def __init__(self, k): self.k = k
    def apply(self, *a, **k): return ('applied', self.k)
  def create(**k):
    log.append(('model', dict(k['config']), k['deterministic'])); return Model(len(log))
  def rec(tag):
    def f(**k):
      log.append((tag, k)); return (tag, k)
    return f
  writer, prog, ds, loss, keys, pred = (object() for _ in range(6))
  kw = {**conf, **other}
  kw0 = {k: (list(v) if k == 'on_steps' else v) for k, v in kw.items()}
  with use(m, create_flax_model=create, evaluator=ns(EvaluateMultipleDatasets=rec('eval')), fewshot=ns(FewShotPeriodicAction=rec('fewshot')), ReportProgress=rec('progress')):
    common = dict(base_model_config=base, writer=writer, progress_hook=prog, first_step=first, train_steps=last, extra_rng_keys=keys, model_overrides=overrides)
    if which == 0: r, cfg = m.create_evaluation_hook(**common, datasets=ds, loss_fn=loss, label_pred_fn=pred, **kw)
    elif which == 1: r, cfg = m.create_fewshot_hook(**common, **kw)
    else: r, cfg = m.create_progress_hook(writer=writer, first_step=first, train_steps=last, **kw), None
  ok('the configured steps are not modified', not have_on or list(given) == kw0['on_steps'] or isinstance(given, set) and set(given) == set(kw0['on_steps']))
  if which < 2:
    ok('neither configuration is modified', dict(base) == before and (not overrides or dict(overrides) == over))
    ok('the base configuration with the overrides applied', dict(cfg) == {**before, **over} and cfg is not base)
  if which == 1 and not kw:
    ok('no few-shot evaluation unless configured', not log and r(1, 2, variables=3) is None)
    return
  tags = [x[0] for x in log]
  tag = ['eval', 'fewshot', 'progress'][which]
  ok('one action', tags.count(tag) == 1 and r is not None and r[0] == tag)
  a = Kw(r[1])
  ok('runs on the first, the last and every configured step', set(a['on_steps']) == {first, last} | set(more if have_on else ()))
  ok('with the other options as configured', all(a[k] is v for k, v in other.items()))
  if which == 2:
    ok('knows the last step and the writer', a['num_train_steps'] is last and a['writer'] is writer and set(a) == {'num_train_steps', 'writer', 'on_steps'} | set(other))
    return
  md = [x for x in log if x[0] == 'model']
  ok('one deterministic model of that configuration', len(md) == 1 and md[0][1] == {**before, **over} and md[0][2] is True)
  ok('evaluates that model', a['apply_fn']() == ('applied', log.index(md[0]) + 1))
  ok('reports to the writer and the progress', a['metric_writer'] is writer and a['report_progress'] is prog and a['report_progress_name'] == tag and a['rng_keys'] is keys)
  ks = {'apply_fn', 'on_steps', 'metric_writer', 'report_progress', 'report_progress_name', 'rng_keys'} | set(other)
  if which == 0:
    ok('evaluates the given data sets with the given loss and prediction', a['datasets'] is ds and a['loss_fn'] is loss and a['label_pred_fn'] is pred)
    ks |= {'datasets', 'loss_fn', 'label_pred_fn'}
  ok('nothing else', set(a) == ks)


@contract('C35', functions=[f'{MOD}.create_flax_model', f'{MOD}.create_profile_hook', f'{MOD}.create_tree_summarizer', f'{MOD}.initialize_train_state_from_checkpoint'], max_paths=100)
def builders():
  """Arbitrary classes, arguments and options."""
  m = loader.load(MOD)
  which = core.choose(4)
  if which == 0:
    cls = lambda *a, **k: ('model', a, k)
    det, p, q = object(), object(), object()
    src = dict(name='Cls(1)', size=p)
    cfg = src if core.choose(2) else Conf(src)
    seen = []
    def parse(s, mod):
      seen.append((s, mod)); return cls, (7,), dict(written=q)
    with use(m, utils=ns(parse_call=parse), ml_collections=ns(ConfigDict=Conf)):
      r = m.create_flax_model(config=cfg, deterministic=det)
      ok('the named class of the models module', seen == [('Cls(1)', m.models)])
      ok('with the written arguments, all options and the determinism', r == ('model', (7,), dict(written=q, size=p, deterministic=det)))
      if isinstance(cfg, Conf): ok('a given configuration is not modified', dict(cfg) == dict(name='Cls(1)', size=p))
      try: m.create_flax_model(config=Conf(size=1), deterministic=True)
      except KeyError: ok('a model without a name is rejected', True)
      else: ok('a model without a name is rejected', False)
  elif which == 1:
    allp = [None, False, True][core.choose(3)]
    opt, wd = object(), object()
    with use(m, periodic_actions=ns(ProfileAllHosts=lambda **k: ('all', k), Profile=lambda **k: ('one', k)), SingleProcessPeriodicAction=lambda periodic_action: ('single', periodic_action)):
      r = m.create_profile_hook(workdir=wd, opt=opt, **({} if allp is None else dict(all_processes=allp)))
    want = dict(logdir=wd, opt=opt)
    ok('profiles one process unless all are asked for', r == (('all', want) if allp else ('single', ('one', want))))
  elif which == 2:
    mk = lambda **k: k
    with use(m, TreeSummarizer=mk):
      ok('nothing to summarise', m.create_tree_summarizer(None) is None and m.create_tree_summarizer([]) is None and m.create_tree_summarizer({}) is None)
      ok('rules only', m.create_tree_summarizer(['a', 'b']) == dict(rules=['a', 'b']) and m.create_tree_summarizer(('a',)) == dict(rules=('a',)))
      ok('all options', m.create_tree_summarizer(dict(rules=['a'], max_summary_values=3)) == dict(rules=['a'], max_summary_values=3))
  else:
    ts, mesh, tp, opt = (object() for _ in range(4))
    name = ['initialize_from_vmoe', 'initialize_from_vit', 'initialize_from_orbax', 'vmoe', ''][core.choose(5)]
    init = ns(**{n: (lambda n: lambda **k: (n, k))(n) for n in ('initialize_from_vmoe', 'initialize_from_vit', 'initialize_from_orbax')})
    with use(m, initialization=init):
      try: r = m.initialize_train_state_from_checkpoint(train_state=ts, name=name, mesh=mesh, thread_pool=tp, opt=opt)
      except ValueError: r = None
    if not name.startswith('init'): ok('unknown methods are rejected', r is None)
    else:
      want = dict(target=ts, mesh=mesh, opt=opt, **(dict(thread_pool=tp) if name.endswith('vmoe') else {}))
      ok('the named method with the given state, mesh and options', r == (name, want))


@contract('C35', functions=[f'{MOD}.make_train_cost_fn', f'{UTILS}.get_flops_and_seconds_per_device'], max_paths=100)
def cost():
  """Any cost analysis, step and number of devices."""
  m, u = loader.load(MOD), loader.load(UTILS)
  f = fresh_real('flops') if core.choose(2) else None
  s = fresh_real('seconds') if core.choose(2) else None
  d, n = fresh_int('devices', 1), fresh_int('step', 0)
  an = {}
  if f is not None: an['flops'] = f
  if s is not None: an['optimal_seconds'] = s
  calls = []
  comp = ns(cost_analysis=lambda: (calls.append(1), an)[1])
  with use(m, utils=u, jax=Over(m.jax, device_count=lambda *a: d)):
    g = m.make_train_cost_fn(comp)
    r = g(n)
  for k, v in (('flops', f), ('device_seconds', s)):
    if v is None: ok('unknown costs are left out', k not in r)
    elif k in r:
      obligation('only positive estimates are reported', v.t > 0)
      obligation('cost per device and step, times steps, times devices', core.to_real(core.num(term(r[k]))) == v.t * core.to_real(n.t) * core.to_real(d.t))
    else: obligation('positive estimates are reported', v.t <= 0)
  ok('nothing else', set(r) <= {'flops', 'device_seconds'})


@contract('C35', functions=[f'{ACT}.SingleProcessPeriodicAction.__call__', f'{ACT}.ReportProgress._should_trigger', f'{ACT}.ReportProgress.__call__', f'{ACT}.ReportProgress.__init__'], max_paths=100)
def one_process_acts():
  """Any process index; the wrapped action and clu's progress report are arbitrary."""
  m = loader.load(ACT)
  p, q = fresh_int('process', 0), fresh_int('index', 0)
  calls = []
  act = lambda *a, **k: (calls.append((a, k)), 'done')[1]
  jx = Over(m.jax, process_index=lambda *a: p)
  which = core.choose(2)
  with use(m, jax=jx):
    if which == 0:
      dflt = core.choose(2)
      r = (m.SingleProcessPeriodicAction(periodic_action=act) if dflt else m.SingleProcessPeriodicAction(periodic_action=act, process_index=q))(1, 2, k=3)
      mine = p.t == (0 if dflt else q.t)
      obligation('runs once on its own process, never elsewhere', z3.BoolVal(len(calls) == 1) == mine)
      ok('with the given arguments', calls in ([], [((1, 2), dict(k=3))]))
      ok('its result, or not triggered', r == 'done' if calls else r is False)
      return
    trig = core.fresh_bool('triggered')
    seen = []
    R = m.ReportProgress
    base = R.__mro__[1]
    own = core.choose(3)
    o = R.__new__(R)
    old = base.__init__, base.__call__, base._should_trigger, R._apply_extra
    def init(self, **k): seen.append(k)
    def call(self, step, t=None): return R._should_trigger(self, step, t)
    def should(self, step, t):
      seen.append((step, t)); return trig
    try:
      base.__init__, base.__call__, base._should_trigger = init, call, should
      R._apply_extra = lambda self, *a, **k: calls.append((a, k))
      if own == 0: R.__init__(o, writer='w')
      else: R.__init__(o, process_index=q if own == 1 else None, writer='w')
      ok('options handed on', seen.pop(0) == dict(writer='w'))
      st, tt = object(), object()
      r = o(st, tt, scalar_metrics='m')
    finally: base.__init__, base.__call__, base._should_trigger, R._apply_extra = old
    b = bool(r)
    mine = z3.BoolVal(True) if own == 2 else p.t == (0 if own == 0 else q.t)
    obligation('reports exactly when due, on its own process (on all if none is given)', z3.BoolVal(b) == z3.And(mine, trig.t))
    ok('metrics are written exactly when it reports', (len(calls) == 1) == b)
    if calls: ok('with the step, time and metrics', calls[0] == ((st, tt), dict(scalar_metrics='m')))


@contract('C35', functions=[f'{MOD}.train_and_evaluate'], bounded='runs of one or two steps', max_paths=200)
def wiring():
  """Arbitrary components and options: who is given what."""
  m = loader.load(MOD)
  adv, mix, ini, extra = (core.choose(2) for _ in range(4))
  first = [0, 4][core.choose(2)]
  last = first + 1 + core.choose(2)
  O = {k: object() for k in ('img', 'lab', 'seed', 'opt', 'regex', 'mesh', 'micro', 'last_seen', 'manager', 'train_ds', 'val_ds', 'test_ds', 'tl', 'el', 'pf', 'sum', 'pre')}
  log = {}
  def rec(tag, out=None):
    def f(*a, **k):
      log.setdefault(tag, []).append((a, k))
      return out(*a, **k) if callable(out) else out
    return f
  class State:
    def __init__(self, s): self.step, self.params = s, ('params', s)
  class F:
    def __init__(self, fun): self.fun = fun
    def lower(self, *a): return self
    def compile(self): return self
    def __call__(self, state, a, b):
      log.setdefault('step', []).append((state, a, b))
      return State(state.step + 1), dict(loss='L', acc='A')
  class Progress:
    def __call__(self, *a, **k): log.setdefault('progress', []).append((a, k))
    def timed(self, *a, **k): return Ctxm()
  class Mgr:
    def save(self, *a, **k): log.setdefault('save', []).append((a, k))
    def wait_until_finished(self): pass
  class Writer:
    def write_scalars(self, *a): log.setdefault('scalars', []).append(a)
  train = Conf(batch_size=4)
  if extra: train['prefetch_device'] = O['pre']
  cfg = Conf(dataset=Conf(train=train), model=Conf(name='M', p=1), optimizer=O['opt'], params_axis_resources=O['regex'], loss=Conf(name='x', o=1), train_steps=last)
  if adv: cfg['adversarial'] = Conf(a=1, b=2)
  if mix: cfg['mixup'] = Conf(c=3)
  if ini: cfg['initialization'] = Conf(name='i')
  if extra: cfg.update(seed=O['seed'], microsteps=O['micro'], extra_rng_keys=['k1', 'k2'], summarize_arrays=['r'], evaluate=Conf(ev=1), fewshot=Conf(fs=2), report_progress=Conf(rp=3), profile=Conf(pr=4), save_checkpoint=Conf(sc=5))
  ecfg = object()
  batches = [dict(image=('i', k), labels=('l', k)) for k in range(5)]
  mesh = ns(axis_names=('expert', 'replica'))
  P = lambda *a: ('spec', a)
  step_fn = rec('train_step', 'stepped')
  def wrap(tag):
    def f(fn, *a, **k):
      log.setdefault(tag, []).append((a, k))
      return lambda *b, **kk: (log.setdefault('order', []).append(tag), fn(*b, **kk))[1]
    return f
  with use(m, input_pipeline=ns(get_datasets=lambda c_: dict(train=O['train_ds'], val=O['val_ds'], test=O['test_ds']), get_data_num_examples=lambda c_: 10),
           get_train_steps_and_epochs=rec('steps', (last, 1.)), pjit_utils=ns(get_dataset_shape_dtype_struct=lambda d: dict(image=O['img'], labels=O['lab'])),
           create_checkpoint_manager=rec('manager', lambda **k: Mgr()), make_create_train_state_fn=rec('create', 'fn'), create_flax_model=rec('model', 'model'),
           restore_or_create_train_state=rec('restore', lambda **k: (State(first), O['last_seen'])), get_dataset_iterator=rec('iterator', lambda **k: iter(batches)),
           get_loss_fn=rec('loss', (O['tl'], O['el'], O['pf'])), create_tree_summarizer=rec('summary', O['sum']),
           train_step=step_fn, wrap_train_step_with_adversarial_attack=wrap('adv'), wrap_train_step_with_mixup=wrap('mix'),
           pjit=ns(pjit=rec('pjit', lambda fun=None, *a, **k: F(fun))), create_profile_hook=rec('profile', lambda **k: rec('profiled')),
           create_progress_hook=rec('mkprogress', lambda **k: Progress()), create_evaluation_hook=rec('mkeval', lambda **k: (rec('eval'), ecfg)), create_fewshot_hook=rec('mkshots', lambda **k: (rec('shots'), None)),
           multihost_utils=ns(sync_devices=lambda *a: None), utils=ns(get_flops_and_seconds_per_device=lambda f: (None, None)),
           make_train_cost_fn=lambda f: (lambda s: dict(cost=('cost', s))), ThreadPool=lambda: None,
           tf=ns(io=ns(gfile=ns(exists=lambda p: True))), os=ns(path=ns(join=lambda *a: a)),
           jax=Over(m.jax, profiler=ns(StepTraceAnnotation=lambda *a, **k: Ctxm()), tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: 'shardings'), sharding=Over(m.jax.sharding, PartitionSpec=P))):
    w = Writer()
    m.train_and_evaluate(cfg, 'wd', mesh, w)
    fun = (lambda a, k: k.get('fun') or a[0])(*log['pjit'][0])
    fun('S', 'I', 'L')
  one = lambda t: (log[t][0][0], Kw(log[t][0][1])) if len(log.get(t, ())) == 1 else ((), Kw())
  keys = ['k1', 'k2'] if extra else []
  k = one('create')[1]
  ok('the train state: configured optimizer, steps, seed, keys and the shape of the images', one('model')[1] == dict(config=cfg.model, deterministic=False) and k['model'] == 'model' and k['optimizer_config'] is O['opt']
     and k['train_steps'] == last and tuple(k['extra_rng_keys']) == tuple(keys) and (k['seed'] is O['seed'] if extra else k['seed'] == 0) and k['input_shape_dtypes'] == (O['img'],))
  k = one('restore')[1]
  ok('restored or created: with the configured initialisation', k['initialize_fn'] == 'fn' and k['axis_resources_regexes'] is O['regex'] and (k['initialization_kwargs'] == (cfg['initialization'] if ini else None)) and isinstance(k['ckpt_manager'], Mgr))
  k = one('iterator')[1]
  ok('the training data continues where it was left', k['dataset'] is O['train_ds'] and k['last_seen_index'] is O['last_seen'] and k['mesh'] is mesh and (k['prefetch_size'] is O['pre'] if extra else k['prefetch_size'] == 1))
  ok('the configured loss', one('loss')[1] == dict(cfg.loss))
  ok('the configured summaries', one('summary')[0] == ((['r'],) if extra else (None,)))
  a, k = one('train_step')
  ok('the training step: training loss, microsteps and summaries as configured', a == ('S', 'I', 'L') and k['loss_fn'] is O['tl'] and k['microsteps'] is (O['micro'] if extra else None) and k['summarizer'] is O['sum'])
  ok('attacked and mixed exactly if configured: mixed first', log.get('order', []) == ['mix'] * mix + ['adv'] * adv)
  if adv: ok('the attack: on the training loss, as configured', log['adv'][0][0][0] is O['tl'] and log['adv'][0][1] == dict(a=1, b=2))
  if mix: ok('the mixing as configured, over all devices', log['mix'][0][1]['c'] == 3 and log['mix'][0][1]['partition_spec'] == ('spec', (('expert', 'replica'),)))
  k = one('mkeval')[1]
  ok('evaluation: every data set but the training one, evaluation loss, prediction, model and options', dict(k['datasets']) == dict(val=O['val_ds'], test=O['test_ds']) and k['loss_fn'] is O['el'] and k['label_pred_fn'] is O['pf']
     and dict(k['base_model_config']) == dict(cfg.model) and list(k['extra_rng_keys']) == keys and (not extra or k['ev'] == 1) and k['writer'] is w)
  k2 = one('mkshots')[1]
  ok('few-shot evaluation: on the evaluation model, with its options', k2['base_model_config'] is ecfg and list(k2['extra_rng_keys']) == keys and (not extra or k2['fs'] == 2) and k2['writer'] is w)
  k3 = one('mkprogress')[1]
  ok('first and last step', all(x['first_step'] == first + 1 and x['train_steps'] == last for x in (k, k2, k3)))
  ok('progress, profile and checkpoint options', not extra or k3['rp'] == 3 and one('profile')[1]['pr'] == 4 and one('manager')[1]['sc'] == 5)
  ss = list(range(first + 1, last + 1))
  ok('metrics of every step reported as training metrics with its cost', [(a[0], k['scalar_metrics']) for a, k in log['progress']] == [(s, {'cost': ('cost', s), 'train/loss': 'L', 'train/acc': 'A'}) for s in ss])
  ok('evaluations are given the parameters after the step and its cost', [(a, k) for a, k in log['eval']] == [((s,), dict(params=('params', s), cost=('cost', s))) for s in ss]
     and [(a, k) for a, k in log['shots']] == [((s,), dict(variables={'params': ('params', s)}, cost=('cost', s))) for s in ss])
  ok('profiling sees every step', [a for a, k in log['profiled']] == [(s,) for s in ss])


@contract('C35', functions=['vmoe.data.input_pipeline.get_data_process_fn', 'vmoe.data.input_pipeline._compose_fns'], bounded='at most three operations', max_paths=100)
def process_string():
  """Arbitrary operations and data."""
  m = loader.load('vmoe.data.input_pipeline')
  n = 1 + core.choose(3)
  log = []
  class D(dict): pass
  def parse(s, mod):
    log.append((s, mod))
    def op(*a, **k):
      def f(d):
        r = D(d); r['by'] = d.get('by', ()) + ((s, a, tuple(k.items())),); return r
      return f
    return op, (s, 1), dict(k=s)
  with use(m, vmoe=ns(utils=ns(parse_call=parse), data=Over(m.vmoe.data) if False else ns(pp_ops='ops'))):
    f = m.get_data_process_fn('|'.join(f'op{i}' for i in range(n)))
    d = D(x=1)
    out = f(d)
  want = tuple((f'op{i}', (f'op{i}', 1), (('k', f'op{i}'),)) for i in range(n))
  ok('each operation is looked up once among the preprocessing operations', log == [(f'op{i}', 'ops') for i in range(n)])
  ok('applied from left to right, each to the result of the previous one', out['by'] == want)
  try: f([1])
  except TypeError: ok('only dictionaries are processed', True)
  else: ok('only dictionaries are processed', False)
