"""C14, C15 (vmoe/partitioning.py): contracts evaluated on the real code."""
import itertools
import re
from unittest import mock
import numpy as np
from rt.base import check, raises


class Dev:
  def __init__(self, coords, proc, ident, platform):
    self.platform, self.process_index, self.id, self.pos = platform, proc, ident, coords
    if platform == 'tpu':
      self.core_on_chip, self.coords = coords[0], coords[1:]
  def __repr__(self): return f'{self.pos}@{self.process_index}'


def hardware(shape, local, platform):
  """Array of devices where process k owns the k-th tile of shape `local`."""
  mesh = np.empty(shape, object)
  grid = tuple(a // b for a, b in zip(shape, local))
  for i, c in enumerate(np.ndindex(*shape)):
    proc = int(np.ravel_multi_index(tuple(a // b for a, b in zip(c, local)), grid))
    ident = c[1] * shape[0] + c[0] if platform != 'tpu' else i
    mesh[c] = Dev(c, proc, ident, platform)
  return mesh


def contiguous(devices):
  procs = {}
  for c in np.ndindex(*devices.shape): procs.setdefault(devices[c].process_index, []).append(c)
  for cs in procs.values():
    box = [(min(c[k] for c in cs), max(c[k] for c in cs)) for k in range(2)]
    if (box[0][1] - box[0][0] + 1) * (box[1][1] - box[1][0] + 1) != len(cs): return False
  return True


def default_layout(parts, mesh):
  """Reference: axes reversed, each split in (partition, replica), partitions first."""
  mesh, parts = mesh.transpose(), parts[::-1]
  reps = [s // p for s, p in zip(mesh.shape, parts)]
  out = np.empty((int(np.prod(parts)), int(np.prod(reps))), object)
  for c in np.ndindex(*mesh.shape):
    p = [x // r for x, r in zip(c, reps)]; r = [x % r for x, r in zip(c, reps)]
    out[int(np.ravel_multi_index(p, parts)), int(np.ravel_multi_index(r, reps))] = mesh[c]
  return out


def configs(run):
  out = []
  for s in itertools.product([1, 2, 3, 4, 6, 8], [1, 2, 3, 4]): out.append((s, (s[0], 1), 'cpu'))
  for s in itertools.product([1, 2], [1, 2, 3, 4, 8], [1, 2, 4, 6], [1, 2, 4]):
    for l in [(1, 2, 2, 1), (2, 2, 2, 1), (2, 1, 2, 1), s]:
      if not any(a % b for a, b in zip(s, l)): out.append((s, l, 'tpu'))
  run.rng.shuffle(out)
  # always some meshes where the default arrangement scatters the processes.
  first = [((2, 4, 2, 2), (2, 2, 2, 1), 'tpu'), ((1, 4, 4, 2), (1, 2, 2, 1), 'tpu'), ((2, 2, 4, 1), (1, 2, 2, 1), 'tpu'), ((2, 8, 4, 1), (2, 2, 2, 1), 'tpu'),
           ((8, 2), (8, 1), 'cpu'), ((6, 4), (6, 1), 'cpu')]
  return first + out


@check('C14')
def logical_mesh(run):
  from vmoe import partitioning as P
  for s, l, plat in configs(run):
    mesh = hardware(s, l, plat)
    total = int(np.prod(s))
    ns = [n for n in range(1, total + 1) if total % n == 0] + [n for n in range(1, total + 2) if total % n]
    for n in (ns[:10] + run.rng.sample(ns, min(len(ns), 3))):
      run.case('logical_mesh', shape=s, local=l, partitions=n, platform=plat)
      with mock.patch.object(P, 'get_hardware_mesh_local_shape', lambda *a: l):
        try:
          m = (P.get_auto_logical_mesh_tpu if plat == 'tpu' else P.get_auto_logical_mesh_other)(n, mesh)
        except ValueError as e:
          m = None
      if m is None:
        # (a divisor the greedy factorisation cannot realise may be rejected)
        if n == 1 or n == total: run.expect(False, 'trivial-partitionings-accepted', f'{n} partitions of {s} rejected')
        continue
      run.expect(total % n == 0, 'non-divisors-rejected', f'{n} partitions of {total} devices accepted')
      d = m.devices
      run.expect(d.shape == (n, total // n), 'shape-partitions-replicas', f'{d.shape}')
      run.expect(tuple(m.axis_names) == ('expert', 'replica'), 'axis-names', f'{m.axis_names}')
      run.expect({x.pos for x in d.flat} == {x.pos for x in mesh.flat} and len({id(x) for x in d.flat}) == total, 'every-device-exactly-once', f'{d.tolist()}')
      run.expect(contiguous(d), 'processes-own-contiguous-blocks', f'{d.tolist()}')


@check('C14')
def pieces(run):
  """Default arrangement and tiling on explicit partitions."""
  from vmoe import partitioning as P
  for s, l, plat in configs(run):
    mesh = hardware(s, l, plat)
    parts = tuple(run.rng.choice([d for d in range(1, x + 1) if x % d == 0]) for x in s)
    reps = tuple(x // p for x, p in zip(s, parts))
    run.case('pieces', shape=s, local=l, partitions=parts)
    want = default_layout(parts, mesh)
    got = P.get_logical_mesh_default(parts[::-1], reps[::-1], mesh.transpose()).devices
    run.expect(got.shape == want.shape and (got == want).all(), 'default-arrangement', f'{got.tolist()} != {want.tolist()}')
    run.expect(bool(P.processes_have_contiguous_device_slices(want)) == contiguous(want), 'contiguity-test', f'{want.tolist()}')
    for p in {x.process_index for x in want.flat}:
      only = [c for c in np.ndindex(*want.shape) if want[c].process_index == p]
      box = int(np.prod([max(c[k] for c in only) - min(c[k] for c in only) + 1 for k in range(2)]))
      run.expect(bool(P.process_has_contiguous_device_slice(want, p)) == (box == len(only)), 'contiguity-test-one-process', f'process {p}: {want.tolist()}')
    scattered = want.copy()   # any arrangement, not only default ones
    if run.rng.random() < .5: scattered = scattered[:, run.rng.sample(range(want.shape[1]), want.shape[1])]
    else: scattered = np.array(run.rng.sample(list(want.flat), want.size), object).reshape(want.shape)
    run.expect(bool(P.processes_have_contiguous_device_slices(scattered)) == contiguous(scattered), 'contiguity-test', f'{scattered.tolist()}')
    with mock.patch.object(P, 'get_hardware_mesh_local_shape', lambda *a: l):
      try: m = P.get_logical_mesh(parts, mesh).devices
      except ValueError:
        run.expect(not contiguous(want), 'contiguous-default-accepted', 'rejected')
        run.expect(any(p % k and r % k for p, r, k in zip(parts, reps, l)), 'tiling-rejected-only-when-impossible', f'{parts} {reps} {l}')
        continue
    run.expect(m.shape == want.shape and len({id(x) for x in m.flat}) == m.size, 'every-device-exactly-once', f'{m.tolist()}')
    if contiguous(want): run.expect((m == want).all(), 'default-kept-when-contiguous', f'{m.tolist()}')
    run.expect(contiguous(m), 'processes-own-contiguous-blocks', f'{m.tolist()}')
    try: t = P.get_logical_mesh_tile_by_process(parts[::-1], reps[::-1], mesh.transpose(), l[::-1]).devices
    except ValueError: continue
    run.expect(t.shape == want.shape and len({id(x) for x in t.flat}) == t.size and {id(x) for x in t.flat} == {id(x) for x in mesh.flat},
               'tiling-every-device-once', f'{t.tolist()}')
    run.expect(contiguous(t), 'tiling-contiguous', f'{t.tolist()}')


@check('C14')
def whole(run):
  """From an unordered list of devices to the logical mesh."""
  import jax
  from vmoe import partitioning as P
  for s, l, plat in configs(run)[:run.n(120, 400)]:
    mesh = hardware(s, l, plat)
    devs = list(mesh.flat); run.rng.shuffle(devs)
    local = [d for d in devs if d.process_index == 0]
    total = len(devs)
    n = run.rng.choice([k for k in range(1, total + 1) if total % k == 0] + [total + 3])
    run.case('whole', shape=s, local=l, partitions=n, platform=plat, order=[d.pos for d in devs])
    with mock.patch.object(jax, 'local_devices', lambda *a, **k: local), mock.patch.object(jax, 'local_device_count', lambda *a, **k: len(local)):
      hw = P.get_hardware_mesh_tpu(devs) if plat == 'tpu' else P.get_hardware_mesh_other(devs)
      run.expect(hw.shape == mesh.shape and (hw == mesh).all(), 'hardware-mesh-places-devices-by-coordinates', f'{hw.tolist()}')
      run.expect(tuple(P.get_hardware_mesh_local_shape()) == tuple(l), 'local-shape', f'{P.get_hardware_mesh_local_shape()}')
      try: m = P.get_auto_logical_mesh(n, devs)
      except ValueError: continue
    k = min(n, total)
    run.expect(m.devices.shape == (k, total // k), 'shape-partitions-replicas', f'{m.devices.shape}')
    run.expect(len({id(x) for x in m.devices.flat}) == total, 'every-device-exactly-once', f'{m.devices.tolist()}')
    run.expect(contiguous(m.devices), 'processes-own-contiguous-blocks', f'{m.devices.tolist()}')


# -- C15 -----------------------------------------------------------------------------
KEYS = ['moe', 'Mlp', 'kernel', 'bias', 'encoder', 'layer_1', 'layer_10', 'experts', 'a', 'head']


class Leaf:
  pass


def tree(run, depth=0):
  r = run.rng
  if depth and (depth > 3 or r.random() < .35):
    shape = r.choice([(), (1,), (1, 1), (2,), (1, 2), (0,), (0, 3), (3, 4), (5, 1, 2), (1, 1, 1, 2)])
    return np.zeros(shape, np.float32)
  if depth and r.random() < .1: return {}
  if depth > 1 and r.random() < .15: return [tree(run, depth + 1) for _ in range(r.randrange(1, 3))]
  return {k: tree(run, depth + 1) for k in r.sample(KEYS, r.randrange(1, 5))}


def walk(t, path=()):
  if isinstance(t, dict):
    for k in t: yield from walk(t[k], path + (k,))
  elif isinstance(t, (list, tuple)):
    for i, x in enumerate(t): yield from walk(x, path + (str(i),))
  else: yield '/'.join(path), t


def structure(t):
  if isinstance(t, dict): return {k: structure(t[k]) for k in t}
  if isinstance(t, list): return [structure(x) for x in t]
  return '*'


PATTERNS = ['kernel', '.*/kernel$', '^moe', 'bias$', 'layer_1', 'layer_1/', 'layer_1$', 'moe/.*/kernel', '', '.*', 'experts', 'Mlp|bias', '(head|a)/', '^a$', '^encoder/moe', 'nothing', '/0$', 'oe/k']
SPECS = ['expert', ('expert',), ('expert', 'replica'), (('expert', 'replica'),), (None, 'expert'), (), None, ('x', ('y', 'z'), None)]


@check('C15')
def first_matching_rule(run):
  import flax.core
  from jax.sharding import PartitionSpec
  from vmoe import partitioning as P
  for _ in range(run.n(1200, 12000)):
    t = tree(run)
    rules = [(p, run.rng.choice(SPECS)) for p in run.rng.sample(PATTERNS, run.rng.randrange(0, 6))]
    frozen = run.rng.random() < .3 and not any(isinstance(x, list) for x in t.values())
    run.case('first_matching_rule', tree=t, rules=rules, frozen=frozen)
    arg = flax.core.freeze(t) if frozen else t
    out = P.tree_axis_resources_from_regexes(tree=arg, axis_resources_regexes=run.rng.choice([tuple, list])(rules))
    if frozen:
      run.expect(isinstance(out, flax.core.FrozenDict), 'same-structure', f'{type(out)}')
      out = flax.core.unfreeze(out)
    run.expect(structure(out) == structure(t), 'same-structure', f'{structure(out)}')
    got = dict(walk(out))
    for path, x in walk(t):
      want = PartitionSpec()
      if int(np.prod(x.shape)) > 1:
        for p, s in rules:
          if re.search(p, path):
            want = PartitionSpec(s) if isinstance(s, str) else PartitionSpec(*(s or ()))
            break
      run.expect(isinstance(got[path], PartitionSpec) and tuple(got[path]) == tuple(want), 'partition-of-the-first-matching-rule', f'{path}: {got[path]} != {want}')


@check('C15')
def train_state(run):
  """Rules see the paths of a training state."""
  import jax.numpy as jnp, optax, flax.struct
  from jax.sharding import PartitionSpec
  from vmoe import partitioning as P
  @flax.struct.dataclass
  class State:
    step: jnp.ndarray
    params: dict
    opt: tuple
  for _ in range(run.n(40, 300)):
    params = tree(run)
    if any(isinstance(x, (list, np.ndarray)) for x in params.values()): params = {'p': {'kernel': np.zeros((3, 4))}, 'moe': {'kernel': np.zeros((2, 1))}}
    st = State(step=np.zeros(()), params=params, opt=(np.zeros((4,)), {'mu': np.zeros((2, 2))}))
    rules = [(p, run.rng.choice(SPECS)) for p in run.rng.sample(PATTERNS + ['^params/', 'opt/1/mu', 'opt/.*'], 4)]
    run.case('train_state', params=params, rules=rules)
    out = P.tree_axis_resources_from_regexes(tree=st, axis_resources_regexes=rules)
    run.expect(isinstance(out, State) and structure(out.params) == structure(params), 'same-structure', f'{out}')
    d = {'step': st.step, 'params': params, 'opt': {'0': st.opt[0], '1': st.opt[1]}}
    o = {'step': out.step, 'params': out.params, 'opt': {'0': out.opt[0], '1': out.opt[1]}}
    got = dict(walk(o))
    for path, x in walk(d):
      want = PartitionSpec()
      if int(np.prod(x.shape)) > 1:
        for p, s in rules:
          if re.search(p, path):
            want = PartitionSpec(s) if isinstance(s, str) else PartitionSpec(*(s or ())); break
      run.expect(tuple(got[path]) == tuple(want), 'partition-of-the-first-matching-rule', f'{path}: {got[path]} != {want}')


@check('C15')
def specs(run):
  from jax.sharding import PartitionSpec
  from vmoe import partitioning as P
  for s in SPECS + [PartitionSpec('a', None), PartitionSpec(), ['a', None], '', 'abc', [('a', 'b'), 'c']]:
    run.case('specs', spec=s)
    want = s if isinstance(s, PartitionSpec) else PartitionSpec() if not s else PartitionSpec(s) if isinstance(s, str) else PartitionSpec(*s)
    got = P.parse_partition_spec(s)
    run.expect(isinstance(got, PartitionSpec) and tuple(got) == tuple(want), 'normalised-partition', f'{got!r} != {want!r}')
