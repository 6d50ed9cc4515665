"""C24 (vmoe/initialization): contracts evaluated on the real code."""
import re
from rt import absent
absent.install()
import flax
import jax
import jax.numpy as jnp
import numpy as np
import scipy.ndimage
from rt.base import check, raises
from vmoe.initialization import mapping as M
from vmoe.initialization import rules as R


def unflatten(flat):
  return flax.traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in flat.items()})


def flatten(tree):
  return {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(tree, keep_empty_nodes=True).items()}


class Reject(Exception): pass


def natural(names):
  return sorted(names, key=lambda s: [int(c) if c.isdigit() else c for c in re.split(r'(\d+)', s)])


def oracle(src, dst, rules, strict_dtype, strict_shape, strict_source, strict_target):
  """Brute-force reading of the documentation. src/dst: name -> array or None (an empty node)."""
  got = {}
  for s in natural(src):
    rule = next((r for r in rules if re.search(r[0], s)), None)
    if rule is None:
      if strict_source: raise Reject('source')
      rule = ('^(.*)$', r'\1')
    if not rule[1]: continue
    d = re.sub(rule[0], rule[1], s)
    kind = rule[2] if len(rule) > 2 else 'copy'
    if d not in dst: raise Reject('unknown')
    if d in got and kind != 'stack': raise Reject('twice')
    if d in got and got[d][0] != 'stack': raise Reject('mixed')
    if (src[s] is None) != (dst[d] is None): raise Reject('empty')
    got.setdefault(d, (kind, rule[3:], []))[2].append(src[s])
  out = {}
  for d, v in dst.items():
    if d not in got:
      if v is not None and strict_target: raise Reject('target')
      out[d] = v
      continue
    kind, args, xs = got[d]
    x = xs[0]
    if v is None: out[d] = None; continue
    if kind == 'reshape': x = np.reshape(x, args[0] if args and args[0] is not None else v.shape)
    elif kind == 'squeeze': x = np.squeeze(x, args[0])
    elif kind == 'stack': x = np.stack(xs, args[0])
    elif kind == 'expand_tile': x = np.repeat(np.expand_dims(x, args[0]), args[1], args[0])
    if x.dtype != v.dtype:
      if strict_dtype: raise Reject('dtype')
      x = x.astype(v.dtype)
    if x.shape != v.shape:
      if strict_shape: raise Reject('shape')
      x = np.broadcast_to(x, v.shape)
    out[d] = x
  return out


@check('C24')
def mapped(run):
  n_ok = 0
  for _ in range(run.n(200, 900)):
    rng = run.rng
    arr = lambda shape, dt='float32': run.np.integers(0, 100, size=shape).astype(dt)
    src, dst, rules = {}, {}, []
    strict = [rng.random() < .5, rng.random() < .7, rng.random() < .5, rng.random() < .5]
    layers = rng.choice([1, 2, 3, 12]) if rng.random() < .96 else 131
    shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
    for g in rng.sample(range(7), rng.randint(1, 6)):
      dt = rng.choice(['float32', 'int32']) if rng.random() < .2 else 'float32'
      if g == 0:   # stacked layers
        ax = rng.randint(-len(shape) - 1, len(shape))
        names = [f'enc/layer_{i}/w' for i in range(layers)]
        rng.shuffle(names)
        for n in names: src[n] = arr(shape)
        rules.append((r'^enc/layer_\d+/w$', 'enc/all/w', 'stack', ax))
        dst['enc/all/w'] = arr(np.stack([np.zeros(shape)] * layers, ax).shape, dt)
      elif g == 1:
        src['head/kernel'] = arr(shape)
        rules.append(('^head/(.*)$', r'top/\1'))
        dst['top/kernel'] = arr(shape if rng.random() < .8 else (2,) + shape, dt)
      elif g == 2:
        src['mha/q'] = arr((4, 3))
        to = rng.choice([None, (2, 2, 3), (12,)])
        rules.append(('mha/(.)', r'mha/\1/k', 'reshape') + ((to,) if to or rng.random() < .5 else ()))
        dst['mha/q/k'] = arr(to or rng.choice([(3, 4), (2, 6)]), dt)
      elif g == 3:
        ax = rng.randint(0, len(shape))
        src['pos'] = arr(shape[:ax] + (1,) + shape[ax:])
        rules.append(('^pos$', 'pos_emb', 'squeeze', ax if rng.random() < .5 else ax - len(shape) - 1))
        dst['pos_emb'] = arr(shape, dt)
      elif g == 4:
        ax = rng.randint(0, len(shape))
        reps = rng.randint(1, 4)
        src['mlp/b'] = arr(shape)
        rules.append(('^mlp/(.*)$', r'moe/\1', 'expand_tile', ax if rng.random() < .6 else ax - len(shape) - 1, reps))
        dst['moe/b'] = arr(shape[:ax] + (reps,) + shape[ax:], dt)
      elif g == 5:
        src['opt/count'] = arr(())
        rules.append(('^opt/', rng.choice([None, ''])))
      else:
        src['state/nil'] = None
        dst['state/nil'] = None if rng.random() < .8 else arr(())
        rules.append(('^state/', 'state/'))
    # disturbances.
    if rng.random() < .25: dst['extra'] = arr(rng.choice([(2,), (), (1,), (0,)]))
    if rng.random() < .2:   # a whole subtree that no rule touches
      for i in range(rng.choice([3, 12, 30])): dst[f'kept/layer_{i}'] = arr((i % 3,)[:i % 2])
    if rng.random() < .25 and any(v is not None for v in dst.values()):   # a second source for a target, by any rule
      d = rng.choice([k for k, v in dst.items() if v is not None])
      kind = rng.choice([(), ('reshape',), ('squeeze', 0), ('stack', 0), ('expand_tile', 0, 1)])
      src['again/x'] = arr((1,) + dst[d].shape if kind[:1] == ('squeeze',) else dst[d].shape[1:] if kind[:1] == ('expand_tile',) else dst[d].shape)
      rules.insert(rng.randint(0, len(rules)), ('^again/.*$', d) + kind)
      strict = [rng.random() < .2, rng.random() < .5, False, False]
    if rng.random() < .2:   # a pattern that matches several times in a name
      src['aba/ab/bab'] = arr(shape)
      rules.append((rng.choice(['a', 'ab', 'b+']), rng.choice(['c', 'x'])))
      d = re.sub(rules[-1][0], rules[-1][1], 'aba/ab/bab')
      dst[d if rng.random() < .8 else re.sub(rules[-1][0], rules[-1][1], 'aba/ab/bab', count=1)] = arr(shape)
    if rng.random() < .2:   # renamed to a name that may not exist; its own name exists
      src['same/w'] = arr(shape)
      dst['same/w'] = arr(shape)
      rules.append(('^same/', rng.choice(['same/', 'diff/', 'other/'])))
      if rng.random() < .3: dst['diff/w'] = arr(shape)
    if rng.random() < .25:   # sizes that would broadcast
      a, b = rng.choice([((1,), (3,)), ((), (2,)), ((3,), (1, 3)), ((1, 2), (2, 2)), ((1,), ()), ((1, 1), (1,)), ((2,), (2, 1))])
      src['size/w'], dst['size/w'] = arr(a), arr(b)
      rules.append(('^size/', 'size/') + rng.choice([(), ('expand_tile', 0, 1)]))
    if rng.random() < .2:   # names that start like others
      for k in [k for k in dst if dst[k] is not None][:2]: dst[k + rng.choice(['_ema', '2'])] = arr((2,))
      strict[3] = rng.random() < .3
    if rng.random() < .2:   # kinds of numbers
      src['num/w'], dst['num/w'] = arr(shape, rng.choice(['int32', 'float32', 'uint8'])), arr(shape, rng.choice(['int32', 'int16', 'uint8', 'float32', 'bool']))
      rules.append(('^num/', 'num/'))
    if rng.random() < .2: src['extra'] = arr((2,))
    if rng.random() < .1: src['other'] = arr((2,))
    if rng.random() < .15 and len(rules) > 1: rules.append(rng.choice(rules)); rng.shuffle(rules)
    if rng.random() < .15: rules.insert(0, (rng.choice(['w$', 'kernel', '^mha', 'pos']), rng.choice([None, 'extra', 'top/kernel'])))
    if rng.random() < .1: rules.append(('', rng.choice([None, r'\g<0>'])))
    run.case('mapped', source={k: None if v is None else v.shape for k, v in src.items()}, target={k: None if v is None else (v.shape, str(v.dtype)) for k, v in dst.items()}, rules=rules, strict=strict)
    try: want = oracle(src, dst, rules, *strict)
    except Reject as e: want = e
    except (ValueError, TypeError) as e: want = e        # the transformation itself does not apply
    tree = lambda f, to: unflatten({k: {} if v is None else to(v) for k, v in f.items()})
    a, b = tree(src, jnp.asarray), tree(dst, jnp.asarray)
    try: out = M.map_state_dict(a, b, rules if rng.random() < .7 else R.Rules.parse(rules), raise_if_dtype_mismatched=strict[0], raise_if_shape_mismatched=strict[1], raise_if_source_unmatched=strict[2], raise_if_target_unmatched=strict[3])
    except (KeyError, ValueError, TypeError, AttributeError, AssertionError) as e: out = e
    if isinstance(want, Exception):
      run.expect(isinstance(out, Exception), 'rejected', f'expected a rejection ({want}), got a result')
      continue
    n_ok += 1
    if isinstance(out, Exception): run.expect(False, 'accepted', f'rejected with {out!r}'); continue
    got = flatten(jax.tree_util.tree_map(np.asarray, out))
    run.expect(set(got) == set(want), 'same-names', f'{sorted(got)} vs {sorted(want)}')
    for k, v in want.items():
      if v is None: run.expect(not isinstance(got[k], np.ndarray), 'empty-nodes', k)
      else:
        ok = isinstance(got[k], np.ndarray) and got[k].dtype == v.dtype and got[k].shape == v.shape and (got[k] == v).all()
        run.expect(ok, 'values', f'{k}: {got[k]!r} instead of {v!r}')
  run.expect(n_ok >= 3, 'some accepted', '')


@check('C24')
def sorted_naturally(run):
  for _ in range(run.n(30)):
    n = run.rng.randint(1, 40)
    names = list({f'{run.rng.choice(["a", "layer_", "block/"])}{run.rng.randint(0, run.rng.choice([12, 120, 5000]))}{run.rng.choice(["", "/w", "/b_3", "/b_11", f"/x_{run.rng.randint(0, 3)}/y_{run.rng.randint(0, 2)}/z_{run.rng.randint(0, 300)}/w{run.rng.randint(9, 11)}", f"/1/2/3/4/5/6/{run.rng.randint(8, 12)}"])}' for _ in range(n)})
    run.rng.shuffle(names)
    run.case('sorted', names=names)
    out = list(M._natural_sort(names))
    run.expect(out == natural(names), 'natural-order', f'{out}')


@check('C24')
def resized(run):
  for _ in range(run.n(15)):
    rng = run.rng
    vit = rng.random() < .7
    given = rng.random() < .7
    if vit:
      s, t, st, tt, h = rng.choice([1, 2, 3, 4, 14]), rng.choice([1, 2, 3, 4, 5, 16]), rng.randint(0, 1), rng.randint(0, 1), rng.randint(1, 3)
      a, b = (1, s * s + st, h), (1, t * t + tt, h)
    else:
      a = tuple(rng.choice([1, 2, 3, 4, 19]) for _ in range(2)); b = tuple(rng.choice([1, 2, 3, 4, 5, 17]) for _ in range(2))
    x, y = run.np.normal(size=a).astype('float32'), run.np.normal(size=b).astype('float32')
    run.case('resized', vit=vit, source=a, target=b, target_given=given)
    rule = (R.VitZoomRule if vit else R.ZoomRule)(re.compile('x'), 'y')
    tgt = jnp.asarray(y) if given else jax.ShapeDtypeStruct(b, 'float32', sharding=jax.sharding.SingleDeviceSharding(jax.devices()[0]))
    out = np.asarray(rule.get_transformation(jnp.asarray(x), tgt)())
    run.expect(out.shape == b, 'target-shape', f'{out.shape}')
    if not vit:
      run.expect(np.allclose(out, scipy.ndimage.zoom(x, [q / p for p, q in zip(a, b)], order=1), atol=1e-6), 'linear', '')
      continue
    grid = scipy.ndimage.zoom(x[0, st:].reshape(s, s, h), (t / s, t / s, 1), order=1).reshape(t * t, h)
    run.expect(np.allclose(out[0, tt:], grid, atol=1e-6), 'grid-is-resized', f'{out[0, tt:]} vs {grid}')
    if tt and (st or given): run.expect(np.array_equal(out[0, 0], (x if st else y)[0, 0]), 'class-token', f'{out[0, 0]}')


@check('C24')
def scalars(run):
  run.case('reshape to a scalar')
  one = jnp.ones((1,))
  run.expect(R.ReshapeRule(re.compile('x'), 'y', ()).get_transformation(one, one)().shape == (), 'explicit-shape', 'an explicit shape () is ignored')
  run.case('not a square grid')
  z = lambda n, m, h=2: R.VitZoomRule(re.compile('x'), 'y').get_transformation(jnp.ones((1, n, h)), jnp.ones((1, m, 2)))()
  run.expect(raises(lambda: z(3, 4), ValueError) and raises(lambda: z(4, 7), ValueError) and raises(lambda: z(4, 4, 3), ValueError), 'not-square-rejected', '')
