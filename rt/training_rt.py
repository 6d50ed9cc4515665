"""C33, C35 (vmoe/train/*.py, vmoe/utils.py, vmoe/data/input_pipeline.py): contracts evaluated on the real code."""
import re
from unittest import mock
import flax
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from rt import absent
absent.install()
from rt.base import check, raises
from vmoe import utils as U
from vmoe.data import input_pipeline as IP, pp_ops
from vmoe.evaluate import ensemble
from vmoe.train import periodic_actions as PA, trainer as TR
from vmoe.train.train_state import TrainState
from vmoe.train.tree_summarizer import TreeSummarizer


def close(a, b, tol=2e-4): return np.allclose(np.asarray(a, np.float64), np.asarray(b, np.float64), rtol=tol, atol=tol * 1e-1)


def norm(t): return float(np.sqrt(sum(np.sum(np.square(np.asarray(x, np.float64))) for x in jax.tree.leaves(t))))


def model(kind, log):
  def apply_fn(variables, x, rngs):
    p = variables['params']
    y = x.reshape(x.shape[0], -1) @ p['w'] + p['sub']['b']
    log.append(sorted(rngs))
    y = y + 0 * jax.random.normal(rngs['dropout'], ())
    me = dict(size=jnp.abs(p['w']), per_item=jnp.arange(1., 4.), nested=dict(q=jnp.array([2., 4.])))
    if kind == 1: me['auxiliary_loss'] = jnp.sum(p['w'] ** 2) * .3
    if kind == 2: me['auxiliary_loss'] = jnp.stack([jnp.sum(p['sub']['b'] ** 2), jnp.sum(p['w'])])
    return y, me
  return apply_fn


@check('C33')
def training_step(run):
  txs = [lambda: optax.sgd(.1), lambda: optax.adam(.05), lambda: optax.sgd(.2, momentum=.9), lambda: optax.chain(optax.clip_by_global_norm(.1), optax.sgd(1.))]
  n = jax.device_count()
  from jax.sharding import Mesh
  for it in range(run.n(12, 120)):
    B, H, C = n * [2, 4, 1][it % 3] if run.thorough else 2 * n, 2, 3
    kind = it % 3
    name = ['softmax_xent', 'sigmoid_xent'][it // 3 % 2]
    params = dict(w=jnp.asarray(run.np.normal(size=(2 * H, C)), jnp.float32), sub=dict(b=jnp.asarray(run.np.normal(size=C), jnp.float32)))
    x = jnp.asarray(run.np.normal(size=(B, H, 2)), jnp.float32)
    y = jnp.asarray(np.eye(C)[run.np.integers(0, C, B)], jnp.float32)
    log = []
    tx = txs[it % 4]()
    ms = run.rng.choice([None, 1, 2]) if B % (2 * n) == 0 else None
    summ = TreeSummarizer(rules=[('^params/w$', 'norm'), ('params_grads/sub/b', 'max'), ('step', 'mean')]) if it % 2 else None
    run.case('training_step', batch=B, classes=C, loss=name, aux=kind, optimizer=it % 4, microsteps=ms, summaries=bool(summ), params=params, images=x)
    st = TrainState.create(apply_fn=model(kind, log), params=params, tx=tx, rngs=U.make_rngs(('dropout', 'gating'), it))
    loss = TR.get_loss_fn(name)[0]
    want_main = lambda p: jnp.mean(jnp.sum(-y * jax.nn.log_softmax(model(0, [])(dict(params=p), x, st.rngs)[0]), -1) if name == 'softmax_xent'
                                   else jnp.sum(-(y * jax.nn.log_sigmoid(model(0, [])(dict(params=p), x, st.rngs)[0]) + (1 - y) * jax.nn.log_sigmoid(-model(0, [])(dict(params=p), x, st.rngs)[0])), -1))
    aux = lambda p: [0., jnp.sum(p['w'] ** 2) * .3, (jnp.sum(p['sub']['b'] ** 2) + jnp.sum(p['w'])) / 2][kind]
    ref_opt = tx.init(params)
    p = params
    rounds = run.rng.randint(1, 3)
    with Mesh(np.asarray(jax.devices()).reshape(1, -1), ('expert', 'replica')):
      for r in range(rounds):
        old = st
        st, me = TR.train_step(st, x, y, loss, microsteps=ms, summarizer=summ)
        g = jax.grad(lambda q: want_main(q) + aux(q))(p)
        up, ref_opt = tx.update(g, ref_opt, p)
        q = optax.apply_updates(p, up)
        me = dict(me)
        run.expect(close(me['main_loss'], want_main(p)), 'mean-training-loss', f"{me['main_loss']} vs {want_main(p)}")
        run.expect(close(me['total_loss'], want_main(p) + aux(p)), 'main-plus-auxiliary-loss', f"{me['total_loss']} vs {want_main(p) + aux(p)}")
        run.expect(('auxiliary_loss' in me) == (kind > 0) and (kind == 0 or close(me['auxiliary_loss'], aux(p))), 'auxiliary-loss-reported')
        run.expect(close(me['size'], jnp.mean(jnp.abs(p['w']))) and close(me['per_item'], 2.) and close(me['nested']['q'], 3.), 'metrics-averaged')
        run.expect(close(me['global_norm/grads'], norm(g), 2e-3) and close(me['global_norm/updates'], norm(up), 2e-3) and close(me['global_norm/params'], norm(q)), 'norms', f'{me}')
        ok = all(close(a, b, 2e-3) for a, b in zip(jax.tree.leaves(st.params), jax.tree.leaves(q)))
        run.expect(ok and jax.tree.structure(st.params) == jax.tree.structure(q), 'gradient-applied-once-through-the-optimizer', f'{st.params} vs {q}')
        run.expect(int(st.step) == r + 1 and st.tx is old.tx and st.apply_fn is old.apply_fn, 'one-step-counted')
        run.expect(sorted(st.rngs) == ['dropout', 'gating'] and all(not np.array_equal(st.rngs[k], old.rngs[k]) for k in st.rngs), 'next-keys')
        run.expect(all(np.array_equal(a, b) for a, b in zip(jax.tree.leaves(old.params), jax.tree.leaves(p if r else params))) if r == 0 else True, 'given-state-unmodified')
        if summ:
          run.expect(close(me['params/w_norm'], norm(q['w'])) and close(me['params_grads/sub/b_max'], np.max(np.asarray(g['sub']['b'])), 2e-3) and close(me['step_mean'], r + 1), 'summaries-of-new-state-and-gradients', f'{me}')
        p = st.params
        ref_opt = st.opt_state
    run.expect(all(l == ['dropout', 'gating'] for l in log), 'model-gets-its-keys')


@check('C33')
def loss_names(run):
  for it in range(run.n(20)):
    B, C, M = run.rng.randint(1, 5), run.rng.randint(1, 5), run.rng.randint(1, 3)
    x = run.np.normal(size=(B * M, C)).astype(np.float32) * run.rng.choice([1, 10])
    y = (run.np.random((B, C)) < .4).astype(np.float32) if it % 2 else np.eye(C, dtype=np.float32)[run.np.integers(0, C, B)]
    run.case('loss_names', logits=x, labels=y, members=M)
    ls = lambda v: -np.logaddexp(0, -v)
    if M == 1:
      z = x.astype(np.float64)
      sm = -(y * (z - np.log(np.exp(z - z.max(-1, keepdims=True)).sum(-1, keepdims=True)) - z.max(-1, keepdims=True))).sum(-1)
      sg = -(y * ls(z) + (1 - y) * ls(-z)).sum(-1)
      for n, w in (('softmax_xent', sm), ('sigmoid_xent', sg)):
        tr, ev, pr = TR.get_loss_fn(n)
        run.expect(close(tr(x, y), w, 1e-3) and close(ev(x, y), w, 1e-3) and tr(x, y).shape == (B,), 'named-loss', f'{n}: {tr(x, y)} vs {w}')
        run.expect(np.array_equal(pr(x), z.argmax(-1)), 'prediction', n)
    for n, fs in (('ensemble_softmax_xent', (ensemble.ensemble_softmax_xent_train, ensemble.ensemble_softmax_xent_eval, ensemble.label_pred_ensemble_softmax)),
                  ('ensemble_sigmoid_xent', (ensemble.ensemble_sigmoid_xent_train, ensemble.ensemble_sigmoid_xent_eval, ensemble.label_pred_ensemble_sigmoid))):
      tr, ev, pr = TR.get_loss_fn(n, ensemble_size=M)
      for f, g, k in ((tr, fs[0], 'train'), (ev, fs[1], 'eval')):
        run.expect(np.array_equal(f(x, y), g(x, y, ensemble_size=M)), f'named-loss', f'{n} {k}')
      run.expect(np.array_equal(pr(x), fs[2](x, ensemble_size=M)), 'prediction', n)
    for bad in ('softmax', 'Sigmoid_xent', '', 'ensemble_', 'xent'): run.expect(raises(lambda: TR.get_loss_fn(bad), ValueError), 'unknown-loss-rejected', bad)


@check('C33')
def summaries(run):
  names = ['a', 'b', 'Moe', 'kernel']
  np_ops = dict(mean=np.mean, std=np.std, sum=np.sum, min=np.min, max=np.max, norm=lambda v, axis, keepdims: np.sqrt(np.sum(np.square(v), axis=axis, keepdims=keepdims)))
  for it in range(run.n(60, 400)):
    def node(d): return {k: (node(d - 1) if d and run.rng.random() < .4 else run.np.normal(size=run.rng.choice([(), (2,), (2, 3), (1, 3)])).astype(np.float64)) for k in run.rng.sample(names, run.rng.randint(1, 3))}
    t = node(1)
    rules, spec = [], []
    for _ in range(run.rng.randint(1, 3)):
      pat = run.rng.choice(['a', 'kernel$', '^b', 'Moe/.*', '.*', 'zz', 'moe'])
      tr = [run.rng.choice(['mean', 'std', 'sum', 'min', 'max', 'norm']) for _ in range(run.rng.randint(0, 2))]
      tr = [(o, run.rng.choice([0, (0,), -1])) if run.rng.random() < .3 else o for o in tr]
      spec.append((pat, tr))
      p = re.compile(pat) if run.rng.random() < .3 else pat
      rules.append(p if not tr and run.rng.random() < .5 else (p, *tr))
    limit = run.rng.choice([1, 2, 10])
    run.case('summaries', tree=t, rules=spec, limit=limit)
    flat = flax.traverse_util.flatten_dict(t, sep='/')
    want, bad = {}, False
    order = []
    for k, v in flat.items():
      for pat, tr in spec:
        if not re.search(pat, k): continue
        s, suf = np.asarray(v), ''
        try:
          for o in tr:
            ax = None if isinstance(o, str) else ((o[1],) if isinstance(o[1], int) else o[1])
            o = o if isinstance(o, str) else o[0]
            s = np_ops[o](s, axis=ax, keepdims=True)
            suf += f'_{o}' + ('' if ax is None else f'{ax}')
        except (ValueError, IndexError): bad = True; break
        if s.size > limit: bad = True; break
        for i in np.ndindex(*s.shape):
          e = ','.join(str(a) for a, n_ in zip(i, s.shape) if n_ > 1)
          want[k + suf + (f'[{e}]' if e else '')] = s[i]
          order.append(k)
    try: got = list(TreeSummarizer(rules=rules, max_summary_values=limit)(t))
    except (ValueError, IndexError): got = None
    run.expect((got is None) == bad, 'too-many-values-rejected', f'{got} {bad}')
    if got is None: continue
    d = dict(got)
    run.expect(set(d) == set(want), 'one-summary-per-matching-rule', f'{sorted(d)} vs {sorted(want)}')
    run.expect(all(close(d[k], want[k], 1e-4) for k in d), 'summary-values', f'{d} vs {want}')
  run.case('unknown_operation')
  for bad in ('median', ('median', 0), 'Mean'): run.expect(raises(lambda: list(TreeSummarizer(rules=[('.*', bad)])(dict(a=np.ones(1)))), ValueError), 'unknown-operation-rejected', f'{bad}')


# -- C35 --------------------------------------------------------------------------
class Fake:
  """Stand-in model class."""
  made = []
  def __init__(self, *a, **k):
    self.a, self.k = a, k
    Fake.made.append(self)
  def apply(self, *a, **k): return ('applied', self, a, k)


def rec(log, tag):
  class R:
    def __init__(self, *a, **k):
      log.append((tag, a, k)); self.k = k
  return R


@check('C35')
def hooks(run):
  for it in range(run.n(40)):
    base = ml_collections.ConfigDict(dict(name='Fake(3)', size=1, sub=dict(x=1, y=2)))
    over = run.rng.choice([None, {}, dict(size=5), dict(sub=dict(x=7)), dict(new=1)])
    over = None if over is None else ml_collections.ConfigDict(over)
    base.lock()
    first, last = run.rng.randint(1, 5), run.rng.randint(5, 20)
    on = run.rng.choice([None, [], [7], (3, 9), [first, 4]])
    kw = dict(every_steps=run.rng.choice([10, 100])) if it % 3 else {}
    if on is not None: kw['on_steps'] = on
    on0 = list(on) if on is not None else None
    run.case('hooks', overrides=over and over.to_dict(), first_step=first, train_steps=last, options=kw)
    b0, o0 = base.to_dict(), over.to_dict() if over else {}
    want = base.copy_and_resolve_references().to_dict()
    for k, v in o0.items(): want[k] = {**want[k], **v} if isinstance(v, dict) else v
    for which in ('eval', 'fewshot', 'progress'):
      log = []; Fake.made.clear()
      with mock.patch.object(TR.models, 'Fake', Fake, create=True), mock.patch.object(TR.evaluator, 'EvaluateMultipleDatasets', rec(log, 'eval')), \
           mock.patch.object(TR.fewshot, 'FewShotPeriodicAction', rec(log, 'fewshot')), mock.patch.object(TR, 'ReportProgress', rec(log, 'progress')):
        common = dict(base_model_config=base, writer='w', progress_hook='p', first_step=first, train_steps=last, extra_rng_keys=('k',), model_overrides=over)
        if which == 'eval': h, c = TR.create_evaluation_hook(**common, datasets=dict(v=1), loss_fn='l', label_pred_fn='q', **kw)
        elif which == 'fewshot': h, c = TR.create_fewshot_hook(**common, **kw)
        else: h, c = TR.create_progress_hook(writer='w', first_step=first, train_steps=last, **kw), None
      if c is not None:
        run.expect(base.to_dict() == b0 and (over.to_dict() if over else {}) == o0, 'configurations-unmodified')
        run.expect(c.to_dict() == want, 'base-with-overrides', f'{c.to_dict()} vs {want}')
      if which == 'fewshot' and not kw:
        run.expect(not log and h(1, t=2, variables=3) is None, 'no-few-shot-evaluation-unless-configured')
        continue
      run.expect(len(log) == 1 and log[0][0] == which, 'one-action', f'{log}')
      k = log[0][2]
      run.expect(set(k['on_steps']) == {first, last, *(on or ())}, 'first-last-and-configured-steps', f"{k['on_steps']} vs {first}, {last}, {on}")
      run.expect(on is None or list(on) == on0, 'configured-steps-unmodified')
      run.expect(k.get('every_steps') == kw.get('every_steps'), 'options-passed-on')
      if which == 'progress':
        run.expect(k['num_train_steps'] == last and k['writer'] == 'w', 'progress-options', f'{k}'); continue
      run.expect(len(Fake.made) == 1 and Fake.made[0].a == (3,) and Fake.made[0].k == {**{q: v for q, v in want.items() if q != 'name'}, 'deterministic': True}, 'deterministic-model-of-that-configuration', f'{[(f.a, f.k) for f in Fake.made]}')
      run.expect(k['apply_fn']('z') == ('applied', Fake.made[0], ('z',), {}), 'evaluates-that-model')
      run.expect(k['metric_writer'] == 'w' and k['report_progress'] == 'p' and tuple(k['rng_keys']) == ('k',), 'reports-to-writer-and-progress')
      if which == 'eval': run.expect(k['datasets'] == dict(v=1) and k['loss_fn'] == 'l' and k['label_pred_fn'] == 'q', 'data-loss-and-prediction')


def ops_case(run):
  ops = [('value_range(-1, 1)', lambda im: im / 127.5 - 1), ('value_range(0, 2, in_max=255)', lambda im: im / 127.5), ('flip_lr', None)]
  return ops


@check('C35')
def strings(run):
  import types
  mod = types.SimpleNamespace(f=object(), g_1=object())
  lits = [1, -2.5, 'a|b'.replace('|', '/'), True, None, (1, 2), [3], {'k': 4}, 'x y', '']
  for it in range(run.n(60, 500)):
    a = [run.rng.choice(lits) for _ in range(run.rng.randint(0, 3))]
    k = {n: run.rng.choice(lits) for n in run.rng.sample(['p', 'q', 'key'], run.rng.randint(0, 3))}
    name = run.rng.choice(['f', 'g_1', 'os.path.join', 'collections.OrderedDict', 'math.sqrt'])
    import collections, math, os
    want = {'f': mod.f, 'g_1': mod.g_1, 'os.path.join': os.path.join, 'collections.OrderedDict': collections.OrderedDict, 'math.sqrt': math.sqrt}[name]
    text = name + ('(' + ', '.join([repr(x) for x in a] + [f'{n}={v!r}' for n, v in k.items()]) + ')' if a or k or run.rng.random() < .5 else '')
    run.case('strings', text=text)
    fn, ra, rk = U.parse_call(text, mod)
    run.expect(fn is want, 'named-callable', text)
    run.expect(tuple(ra) == tuple(a) and list(rk.items()) == list(k.items()) and [type(x) for x in ra] == [type(x) for x in a], 'written-arguments', f'{text}: {ra} {rk}')
  for bad in ('f().g', 'os.path().join', '1', 'f(x)', 'f(1)(2)', 'a[0]', 'f(g(1))', 'os.getcwd().x(1)', 'f(*y)', "'f'"):
    run.case('strings', text=bad)
    run.expect(raises(lambda: U.parse_call(bad, mod), Exception), 'other-expressions-rejected', bad)
  run.expect(raises(lambda: U.parse_call('missing', mod), AttributeError), 'unknown-names-rejected')
  for it in range(run.n(8)):
    parts = [run.rng.choice(["copy('image', 'c{}')", "keep('image', 'labels', 'c0', 'c1', 'c2', 'n{}')", "value_range(-{}, 1, 0, 255, outkey='n{}')"]) for _ in range(run.rng.randint(1, 3))]
    parts = [p.format(*([i + 1, i] if p.startswith('value') else [i])) for i, p in enumerate(parts)]
    text = '|'.join(parts)
    run.case('strings', process=text)
    import tensorflow as tf
    d = dict(image=tf.constant(run.np.integers(0, 256, (2, 2, 3)).astype(np.float32)), labels=tf.constant([1]))
    ref = dict(d)
    for p in parts:
      fn, a, k = U.parse_call(p, pp_ops)
      ref = fn(*a, **k)(dict(ref))
    got = IP.get_data_process_fn(text)(dict(d))
    run.expect(set(got) == set(ref) and all(np.array_equal(got[k], ref[k]) for k in ref), 'operations-left-to-right', f'{text}: {sorted(got)} vs {sorted(ref)}')


@check('C35')
def costs_and_processes(run):
  for it in range(run.n(40)):
    f, s = run.rng.choice([None, 0., -1., 2.5, 1e9]), run.rng.choice([None, -3., .25])
    n, step = run.rng.choice([1, 4, 8]), run.rng.randint(0, 1000)
    run.case('costs', flops=f, seconds=s, devices=n, step=step)
    comp = mock.Mock(); comp.cost_analysis.return_value = {k: v for k, v in (('flops', f), ('optimal_seconds', s)) if v is not None}
    with mock.patch.object(TR.jax, 'device_count', lambda: n): r = TR.make_train_cost_fn(comp)(step)
    want = {k: v * step * n for k, v in (('flops', f), ('device_seconds', s)) if v is not None and v > 0}
    run.expect(set(r) == set(want) and all(np.isclose(r[k], want[k]) for k in r), 'cost-times-steps-times-devices', f'{r} vs {want}')
  for it in range(run.n(40)):
    me, own = run.rng.randint(0, 3), run.rng.choice([None, 0, 1, 3])
    every, on = run.rng.choice([None, 2, 3]), run.rng.choice([(), (1,), (4, 5)])
    run.case('processes', process=me, index=own, every_steps=every, on_steps=on)
    calls = []
    act = lambda *a, **k: (calls.append((a, k)), True)[1]
    w = mock.Mock()
    with mock.patch.object(PA.jax, 'process_index', lambda: me):
      r = PA.SingleProcessPeriodicAction(periodic_action=act, **({} if own is None else dict(process_index=own)))(1, k=2)
      run.expect((r is True and calls == [((1,), dict(k=2))]) if me == (own or 0) else (r is False and not calls), 'single-process-action', f'{r} {calls}')
      p = PA.ReportProgress(num_train_steps=6, writer=w, every_steps=every, every_secs=None, on_steps=on, process_index=own)
      out = [bool(p(st, float(st), scalar_metrics=dict(a=dict(b=st), c=2.))) for st in range(1, 7)]
    due = [st > 1 and (own is None or me == own) and ((every is not None and st % every == 0) or st in on or st == 6) for st in range(1, 7)]
    run.expect(out == due, 'reports-when-due', f'{out} vs {due}')
    wr = [(c.args[0], {k: v for k, v in c.args[1].items() if not k.startswith('uptime_')}) for c in w.write_scalars.call_args_list if 'c' in c.args[1]]
    run.expect(wr == [(st, {'a/b': float(st), 'c': 2.}) for st in range(1, 7) if due[st - 1]], 'metrics-written', f'{wr}')


@check('C35')
def builders(run):
  for it in range(run.n(12)):
    det = bool(it % 2)
    cfg = ml_collections.ConfigDict(dict(name="Fake(1, kw='v')", size=2))
    run.case('builders', deterministic=det)
    Fake.made.clear()
    with mock.patch.object(TR.models, 'Fake', Fake, create=True): m = TR.create_flax_model(config=cfg, deterministic=det)
    run.expect(m.a == (1,) and m.k == dict(kw='v', size=2, deterministic=det) and 'name' in cfg, 'model-as-configured', f'{m.a} {m.k}')
    run.expect(raises(lambda: TR.create_flax_model(config=ml_collections.ConfigDict(dict(size=2)), deterministic=det), KeyError), 'nameless-model-rejected')
    got = []
    names = ('initialize_from_vmoe', 'initialize_from_vit', 'initialize_from_orbax')
    for n in names:
      ps = [mock.patch.object(TR.initialization, q, lambda q=q, **k: (q, k), create=True) for q in names]
      for p in ps: p.start()
      try: r = TR.initialize_train_state_from_checkpoint(train_state='t', name=n, mesh='m', prefix='x')
      finally:
        for p in ps: p.stop()
      run.expect(r[0] == n and r[1]['target'] == 't' and r[1]['mesh'] == 'm' and r[1]['prefix'] == 'x', 'named-initialisation', f'{r}')
    run.expect(raises(lambda: TR.initialize_train_state_from_checkpoint(train_state='t', name='vmoe', mesh='m'), ValueError), 'unknown-initialisation-rejected')
    run.expect(TR.create_tree_summarizer(None) is None and TR.create_tree_summarizer(['a']).max_summary_values == 1 and TR.create_tree_summarizer(dict(rules=['a'], max_summary_values=4)).max_summary_values == 4, 'summaries-as-configured')
    with mock.patch.object(TR.periodic_actions, 'ProfileAllHosts', lambda **k: ('all', k)), mock.patch.object(TR.periodic_actions, 'Profile', lambda **k: ('one', k)):
      run.expect(TR.create_profile_hook(workdir='w', all_processes=True, x=1) == ('all', dict(logdir='w', x=1)), 'profile-all')
      p = TR.create_profile_hook(workdir='w', x=1)
      run.expect(isinstance(p, TR.SingleProcessPeriodicAction) and p.periodic_action == ('one', dict(logdir='w', x=1)) and p.process_index == 0, 'profile-one')
