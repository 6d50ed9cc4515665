"""C23 (vmoe/projects/adversarial_attacks): contracts evaluated on the real code."""
import functools
from rt import absent
absent.install()
import jax
import jax.numpy as jnp
import numpy as np
from rt.base import check, raises
from vmoe.projects.adversarial_attacks import attacks as A
from vmoe.train import trainer as TR


@check('C23')
def budget(run):
  for _ in range(run.n(20)):
    shape = (run.rng.randint(1, 3),) + tuple(run.rng.randint(1, 4) for _ in range(run.rng.randint(0, 2)))
    U = run.rng.choice([1, 2, 3, 4, 7, 10])
    eps = run.rng.choice([0., 1e-3, .1, 1., 8.])
    x = run.np.normal(size=shape).astype(np.float32) * run.rng.choice([.1, 1., 50.])
    # models whose gradients change sign, vanish, or keep pushing in one direction.
    kind = run.rng.choice(['push', 'wave', 'zero', 'random'])
    have = run.rng.random() < .8
    run.case('budget', shape=shape, updates=U, epsilon=eps, model=kind, keys=have)
    seen = []
    def apply_fn(z, rngs=None):
      w = 1.
      if rngs is not None:
        jax.debug.callback(lambda k: seen.append(np.asarray(k).tobytes()), rngs['k'], ordered=True)
        if kind == 'random': w = jax.random.normal(rngs['k'], z.shape)
      f = dict(push=lambda z: z * 3., wave=lambda z: jnp.sin(z * 40), zero=lambda z: z * 0., random=lambda z: z * w)[kind]
      return f(z).reshape(z.shape[0], -1), {'m': 1.}
    loss_fn = lambda lo, la, me: jnp.sum(lo, -1) + la
    key = jax.random.PRNGKey(run.rng.randrange(10**6))
    rngs = dict(k=key) if have else None
    if kind == 'random' and not have: rngs = dict(k=key); have = True
    f = functools.partial(A.stateless_attack_pgd, max_epsilon=eps, num_updates=U, apply_fn=apply_fn, loss_fn=loss_fn)
    if run.rng.random() < .5: f = jax.jit(f)
    out, new = f(x, np.zeros(shape[0], np.float32), rngs)
    jax.effects_barrier()
    out = np.asarray(out)
    tol = 1e-5 * (np.abs(x) + eps) * U + 1e-7
    run.expect(out.shape == x.shape and (np.abs(out - x) <= eps + tol).all(), 'within-budget', f'{np.abs(out - x).max()} > {eps}')
    if kind == 'push': run.expect((np.abs(out - x - eps) <= tol).all(), 'steps-follow-the-gradient', f'{out - x}')
    if have:
      ks = seen + [np.asarray(new['k']).tobytes()]
      run.expect(len(set(ks)) == len(ks) and len(seen) == U and key.tobytes() not in ks, 'fresh-keys', f'{len(seen)} of {U}: {ks}')
    else: run.expect(new is None, 'no-keys')


def iou(a, b):
  B, N, E = a.shape
  t = 0.
  for i in range(B):
    for j in range(N):
      s, u = (a[i, j] > 0) & (b[i, j] > 0), (a[i, j] > 0) | (b[i, j] > 0)
      if u.any(): t += s.sum() / u.sum() / N
  return t


@check('C23')
def statistics(run):
  for _ in range(run.n(40)):
    B, N, E = run.rng.randint(1, 5), run.rng.randint(1, 4), run.rng.randint(1, 4)
    names = run.rng.sample(['a', 'b', 'c'], run.rng.randint(0, 3))
    vk = run.rng.choice(['none', 'bool', 'float32', 'int32'])
    run.case('statistics', batch=B, tokens=N, experts=E, routers=names, valid=vk)
    st = A.AttackState.create(max_updates=2, router_keys=names, rngs=dict(k=0))
    tot = dict(n=0, ch=0, co=np.zeros(2), lo=np.zeros(2), iou={r: 0. for r in names})
    for step in range(run.rng.randint(1, 3)):
      x = run.np.normal(size=(B, 2))
      y = run.np.integers(0, 3, size=B)
      v = (run.np.uniform(size=B) < .6)
      valid = None if vk == 'none' else v.astype(vk)
      if valid is None: v = np.ones(B, bool)
      L, P, C = run.np.normal(size=(2, B)), run.np.integers(0, 3, size=(2, B)), run.np.integers(0, 2, size=(2, B)).astype(run.rng.choice(['float32', 'int32', 'bool']))
      W = [{r: np.maximum(run.np.normal(size=(B, N, E)), 0) * 10. ** run.np.choice([0, -9, -20], size=(B, N, E)) * (run.np.uniform(size=(B, N, 1)) < .8) for r in names} for _ in range(2)]
      calls = []
      def compute(a, b, r):
        i = int(a is not x)
        calls.append(r['k'])
        return jnp.asarray(L[i]), jnp.asarray(P[i]), jnp.asarray(C[i]), {r: jnp.asarray(w) for r, w in W[i].items()}
      st, xm, l0, lm, y0, ym, c0, cm = A.stateful_attack(st, x, y, valid, stateless_attack_fn=lambda a, b, r: (a + 1, dict(k=r['k'] + 1)), compute_loss_predict_correct_cw_fn=compute)
      run.expect(np.allclose(xm, x + 1) and st.rngs['k'] == step + 1, 'attacked-images-and-keys')
      run.expect(all(np.allclose(g, np.where(v, w, 0), atol=1e-6) for g, w in ((l0, L[0]), (lm, L[1]), (y0, P[0]), (ym, P[1]))), 'results-masked')
      tot['n'] += v.sum(); tot['ch'] += ((P[0] != P[1]) & v).sum()
      for j in (0, 1):
        tot['co'][j] += C[j][v].sum(); tot['lo'][j] += L[j][v].sum()
      for r in names: tot['iou'][r] += iou(W[0][r][v], W[1][r][v])
    run.expect(int(st.num_images) == tot['n'] and int(st.num_changes) == tot['ch'], 'counts-of-valid-images', f'{st} want {tot}')
    run.expect(np.allclose(st.num_correct, tot['co'], atol=1e-5) and np.allclose(st.sum_loss, tot['lo'], atol=1e-4), 'totals-of-valid-images', f'{st} want {tot}')
    run.expect(set(st.sum_iou_experts) == set(names) and all(np.allclose(st.sum_iou_experts[r], tot['iou'][r], atol=1e-4) for r in names), 'expert-overlap-of-valid-images', f'{st} want {tot}')


@check('C23')
def training(run):
  for _ in range(run.n(6)):
    U, eps = run.rng.choice([-1, 0, 1, 3]), run.rng.choice([0., -.5, .25])
    aux = run.rng.random() < .5
    run.case('training', updates=U, epsilon=eps, auxiliary=aux)
    x, y = run.np.normal(size=(4, 3)).astype(np.float32), np.zeros(4, np.float32)
    from vmoe.train.train_state import TrainState
    import optax
    # the main loss pushes down, the auxiliary loss pushes up (stronger).
    st = TrainState.create(apply_fn=lambda v, z, **k: (z.sum(-1) * v['params']['w'], {'auxiliary_loss': 10 * z.sum()}), params=dict(w=jnp.float32(1)), tx=optax.sgd(.1), rngs=dict(k=jax.random.PRNGKey(3)))
    base = lambda s, i, l, *a, **k: (s, i, l, a, k)
    f = TR.wrap_train_step_with_adversarial_attack(base, lambda lo, la: -lo, attack_auxiliary_loss=aux, max_epsilon=eps, num_updates=U)
    if U <= 0 or eps <= 0:
      run.expect(f is base, 'no-attack'); continue
    s, i, l, a, k = f(st, x, y, 5, z=6)
    run.expect(np.allclose(i - x, eps if aux else -eps, atol=1e-5) and l is y and a == (5,) and k == dict(z=6), 'trains-on-attacked-images', f'{i - x}')
    run.expect(not np.array_equal(s.rngs['k'], st.rngs['k']) and s.params is st.params, 'new-keys')
