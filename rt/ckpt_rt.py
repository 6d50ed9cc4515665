"""C07, C08, C09, C10, C11, C12 (vmoe/checkpoints): contracts evaluated on the real code."""
import contextlib
import itertools
import os
import shutil
import tempfile
import types as pytypes
from unittest import mock

import numpy as np
from rt.base import check, raises


def jx():
  import jax
  return jax


# ------------------------------------------------------------------ fake arrays --
class FakeDevice:
  def __init__(self, i, p): self.id, self.process_index = i, p
  def __repr__(self): return f'd{self.id}@p{self.process_index}'


class FakeShard:
  def __init__(self, index, device, data, replica_id):
    self.index, self.device, self.data, self.replica_id = index, device, data, replica_id


class FakeArray:
  """A global array of several processes, as one of them sees it."""
  weak_type = False

  def __init__(self, value, shards, me):
    self.value = value
    self.shape, self.dtype, self.ndim, self.size = value.shape, value.dtype, value.ndim, value.size
    self.aval = None
    self.global_shards = [FakeShard(i, d, value[tuple(i)] if d.process_index == me else None, r) for i, d, r in shards]
    self.addressable_shards = [s for s in self.global_shards if s.device.process_index == me]

  def copy_to_host_async(self): pass
  def block_until_ready(self): return self


def layout(rng, shape, devices):
  """Random tiling of shape over devices (equal parts per axis), with replication."""
  n = len(devices)
  parts = [1] * len(shape)
  left = n
  for ax in rng.sample(range(len(shape)), len(shape)):
    opts = [d for d in range(1, left + 1) if left % d == 0 and shape[ax] % d == 0]
    parts[ax] = rng.choice(opts) if shape[ax] else 1
    left //= parts[ax]
  tiles = list(itertools.product(*[range(p) for p in parts]))
  devs = list(devices)
  if rng.random() < .6: rng.shuffle(devs)
  shards = []
  for t, tile in enumerate(tiles):
    idx = []
    for ax, k in enumerate(tile):
      if parts[ax] == 1: idx.append(slice(None) if rng.random() < .7 else slice(0, shape[ax]))
      else:
        w = shape[ax] // parts[ax]
        idx.append(slice(k * w if k or rng.random() < .5 else None, (k + 1) * w if k + 1 < parts[ax] or rng.random() < .5 else None))
    for r in range(left):
      shards.append((tuple(idx), devs[t * left + r], r))
  if rng.random() < .5: shards.sort(key=lambda s: s[1].id)
  return shards, parts


@contextlib.contextmanager
def as_process(p, count):
  jax = jx()
  orig = jax.Array
  class M(type):
    def __instancecheck__(cls, x): return isinstance(x, (orig, FakeArray))
  class AnyArray(metaclass=M): pass
  from vmoe import multihost_utils
  with mock.patch.object(jax, 'Array', AnyArray), mock.patch.object(jax, 'process_count', lambda *a: count), \
       mock.patch.object(jax, 'process_index', lambda *a: p), mock.patch.object(multihost_utils, 'sync_devices', lambda *a, **k: None):
    yield


DTYPES = ['float32', 'int32', 'uint8', 'bool', 'bfloat16', 'float16']


def rand_value(run, shape, dtype):
  import ml_dtypes
  n = int(np.prod(shape))
  if dtype == 'bool': return run.np.integers(0, 2, shape).astype(bool)
  v = np.arange(1, n + 1).reshape(shape) % (200 if dtype == 'uint8' else 120)
  return v.astype(ml_dtypes.bfloat16 if dtype == 'bfloat16' else dtype)


def rand_shape(rng):
  nd = rng.choice([0, 1, 1, 2, 2, 3])
  return tuple(rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 7, 0 if rng.random() < .25 else 5]) for _ in range(nd))


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='verif_ckpt_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def norm(idx, shape):
  return tuple((s.start or 0, n if s.stop is None else s.stop) for s, n in zip(idx, shape))


def boxes(slicend):
  return tuple((s.start, s.stop) for s in slicend)


def save_all(run, d, tree, layouts, P, num_shards, chunk, values):
  """Runs save_checkpoint in each of the P simulated processes."""
  from vmoe.checkpoints import partitioned
  for p in run.rng.sample(range(P), P):
    t = {k: FakeArray(values[k], layouts[k][0], p) for k in tree}
    with as_process(p, P):
      kw = {} if num_shards is None else dict(num_shards=num_shards)
      partitioned.save_checkpoint(os.path.join(d, 'ckpt_1'), t, max_chunk_bytes=chunk, **kw).get(timeout=60)


def scenario(run):
  rng = run.rng
  P = rng.choice([1, 2, 3, 4])
  per = rng.choice([1, 2, 4]) if P < 4 else rng.choice([1, 2])
  order = rng.random()
  devices = [FakeDevice(i, (i // per) if order < .7 else i % P) for i in range(P * per)]
  names = ['a', 'b', 'c'][:rng.choice([1, 2, 3])]
  values = {k: rand_value(run, rand_shape(rng), rng.choice(DTYPES)) for k in names}
  layouts = {k: layout(rng, values[k].shape, devices) for k in names}
  num_shards = rng.choice([None, P, P + 1, 2 * P, 3 * P, 1, max(P - 1, 1)])
  chunk = rng.choice([None, 1, 3, 4, 8, 16, 17, 40, 64, 100, 1000])
  return P, devices, names, values, layouts, num_shards, chunk


def describe(P, values, layouts, num_shards, chunk):
  return dict(processes=P, arrays={k: (v.shape, str(v.dtype)) for k, v in values.items()}, num_shards=num_shards, max_chunk_bytes=chunk,
              shards={k: [(norm(i, values[k].shape), repr(dv)) for i, dv, _ in l[0]] for k, l in layouts.items()})


def load_raw(d):
  from vmoe.checkpoints import base, types
  index = base.restore_checkpoint(os.path.join(d, 'ckpt_1.index'))
  n = index['shard_count']
  files = {}
  for i in range(n):
    f = base.add_shard_suffix(os.path.join(d, 'ckpt_1.data'), i, n)
    files[i] = base.restore_checkpoint(f, types.ArrayChunks()) if os.path.exists(f) else None
  return index, files


@check('C07')
def chunks_tile_arrays(run):
  for _ in range(run.n(60, 900)):
    P, devices, names, values, layouts, ns, chunk = scenario(run)
    run.case('chunks', **describe(P, values, layouts, ns, chunk))
    with scratch() as d:
      save_all(run, d, names, layouts, P, ns, chunk, values)
      index, _ = load_raw(d)
    for k in names:
      check_tiling(run, values[k], layouts[k][0], [boxes(s) for s in index['index'][k].global_slices], chunk)


def check_tiling(run, v, shards, bxs, chunk):
  count = np.zeros(v.shape, int)
  run.expect(len(set(bxs)) == len(bxs), 'chunks-distinct', f'{bxs}')
  owners = [norm(i, v.shape) for i, _, _ in shards]
  for b in bxs:
    run.expect(all(0 <= lo <= hi <= n for (lo, hi), n in zip(b, v.shape)) and len(b) == v.ndim, 'chunk-inside-array', f'{b} in {v.shape}')
    count[tuple(slice(lo, hi) for lo, hi in b)] += 1
    inside = [o for o in owners if all(olo <= lo and hi <= ohi for (lo, hi), (olo, ohi) in zip(b, o))]
    run.expect(inside, 'chunk-inside-one-shard', f'{b} not inside any of {set(owners)}')
    items = int(np.prod([hi - lo for lo, hi in b]))
    if chunk:
      run.expect(items * v.dtype.itemsize <= chunk or items <= 1, 'chunk-within-limit', f'{b}: {items} items of {v.dtype.itemsize} bytes, limit {chunk}')
  run.expect((count == 1).all(), 'every-element-in-exactly-one-chunk', f'coverage {np.unique(count).tolist()} of {v.shape} with {bxs}')


@check('C07')
def split_slice(run):
  from vmoe.checkpoints import partitioned, types
  f = getattr(partitioned, '_split_slicend', None)
  if f is None: return
  cases = []
  for nd in (0, 1, 2, 3):
    for shp in itertools.product([1, 2, 3, 5, 6, 7, 8, 11, 12, 22], repeat=nd):
      cases.append(shp)
  run.rng.shuffle(cases)
  for shp in cases[:run.n(220, 1111)] + [(10,), (121,), (13, 11), (4, 9, 25), (10007,), (2, 10007)]:
    off = [run.rng.choice([0, 0, 3, shp[i]]) for i in range(len(shp))]
    s = types.SliceNd([types.Slice(o, o + n) for o, n in zip(off, shp)])
    n = int(np.prod(shp))
    for m in {None, 1, 2, 3, 5, 7, max(n // 2, 1), max(n // 3, 1), n, n + 1, max(n - 1, 1)}:
      if n > 5000 and m is not None and m < 1000: continue
      run.case('split', shape=shp, offset=off, limit=m)
      r = [boxes(x) for x in f(s, m)]
      cnt = np.zeros(shp, int)
      for b in r:
        run.expect(len(b) == len(shp) and all(o <= lo <= hi <= o + q for (lo, hi), o, q in zip(b, off, shp)), 'chunk-inside-slice', f'{b}')
        cnt[tuple(slice(lo - o, hi - o) for (lo, hi), o in zip(b, off))] += 1
        it = int(np.prod([hi - lo for lo, hi in b]))
        run.expect(m is None or it <= m, 'chunk-within-limit', f'{b} has {it} > {m}')
      run.expect((cnt == 1).all(), 'every-element-in-exactly-one-chunk', f'{r[:10]}')


@check('C08')
def chunk_files(run):
  for _ in range(run.n(60, 900)):
    P, devices, names, values, layouts, ns, chunk = scenario(run)
    run.case('files', **describe(P, values, layouts, ns, chunk))
    with scratch() as d:
      save_all(run, d, names, layouts, P, ns, chunk, values)
      index, files = load_raw(d)
      want_n = P if ns is None else max(ns, P)
      run.expect(index['shard_count'] == want_n, 'number-of-files', f"{index['shard_count']} vs {want_n}")
      run.expect(all(f is not None for f in files.values()), 'all-files-written')
      # sizes assigned so far, in order of the leaves and of the sorted chunks.
      size = [0] * want_n
      total = {i: 0 for i in files}
      seen = set()
      for li, k in enumerate(sorted(names)):
        info, v = index['index'][k], values[k]
        run.expect(tuple(info.global_shape.shape) == v.shape and info.global_shape.dtype == v.dtype, 'index-shape-and-type', f'{info.global_shape} vs {v.shape} {v.dtype}')
        run.expect(len(info.global_slices) == len(info.shards), 'index-lists-aligned')
        for s, f in zip(info.global_slices, info.shards):
          b = boxes(s)
          own = {dv.process_index for i, dv, _ in layouts[k][0]
                 if all(lo2 <= lo and hi <= hi2 for (lo, hi), (lo2, hi2) in zip(b, norm(i, v.shape)))}
          run.expect(f % P in own, 'written-by-an-owner', f'chunk {b} in file {f} (process {f % P}), owners {own}')
          elig = [i for i in range(want_n) if i % P in own]
          run.expect(size[f] == min(size[i] for i in elig), 'smallest-eligible-file', f'chunk {b}: file {f}, sizes {size}, eligible {elig}')
          size[f] += int(np.prod([hi - lo for lo, hi in b])) * v.dtype.itemsize
          data = [c for c, g in zip(files[f].chunks.get(li, []), files[f].global_slices.get(li, [])) if boxes(g) == b]
          run.expect(len(data) == 1, 'chunk-stored-once-in-its-file', f'{len(data)} copies of {b} in file {f}')
          want = v[tuple(slice(lo, hi) for lo, hi in b)]
          run.expect(data[0].dtype == v.dtype and np.array_equal(np.asarray(data[0]), want), 'stored-elements', f'leaf {k} chunk {b}: {data[0]!r} vs {want!r}')
          seen.add((li, b, f))
      for f, ac in files.items():
        for li in ac.chunks:
          run.expect(len(ac.chunks[li]) == len(ac.global_slices[li]), 'file-lists-aligned')
          for g in ac.global_slices[li]:
            run.expect((li, boxes(g), f) in seen, 'nothing-else-stored', f'leaf {li} chunk {boxes(g)} in file {f} is not in the index')


def shardings(run, shape):
  jax = jx()
  devs = np.array(jax.devices())
  rng = run.rng
  n = rng.choice([d for d in (1, 2, 4, 8) if d <= len(devs)])
  devs = devs[:n].copy()
  if rng.random() < .5: rng.shuffle(devs)
  a = rng.choice([d for d in (1, 2, 4, 8) if n % d == 0])
  mesh = jax.sharding.Mesh(devs.reshape(a, n // a), ('x', 'y'))
  spec = []
  free = ['x', 'y']
  for s in shape:
    c = rng.choice([None, 'x', 'y', ('x', 'y')])
    names = (c,) if isinstance(c, str) else (c or ())
    if all(m in free for m in names) and s % max(int(np.prod([mesh.shape[m] for m in names])), 1) == 0 and c is not None:
      spec.append(c)
      for m in names: free.remove(m)
    else: spec.append(None)
  return jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*spec))


@check('C09')
def save_and_restore(run):
  jax = jx()
  from vmoe.checkpoints import partitioned
  import multiprocessing.pool
  pools = {n: multiprocessing.pool.ThreadPool(n) for n in (1, 3)}
  for it in range(run.n(70, 900)):
    multi = it % 2
    P, devices, names, values, layouts, ns, chunk = scenario(run)
    target = {k: shardings(run, values[k].shape) for k in names}
    threads = run.rng.choice([None, 1, 3])
    conc = run.rng.choice([None, 1, 50, 10**9])
    if it % 3 == 0:    # many files, several of them per thread
      ns = run.rng.choice([3, 5, 6, 7, 9, 11])
      chunk = run.rng.choice([4, 8, 16])
      conc = run.rng.choice([60, 100, 150, 200, 300, 500, 700, 1000])
    info = describe(P, values, layouts, ns, chunk)
    with scratch() as d:
      if multi:
        save_all(run, d, names, layouts, P, ns, chunk, values)
      else:
        src = {k: shardings(run, values[k].shape) for k in names}
        info = dict(arrays=info['arrays'], source={k: repr(s) for k, s in src.items()}, num_shards=ns, chunk=chunk)
        partitioned.save_checkpoint(os.path.join(d, 'ckpt_1'), {k: jax.device_put(values[k], src[k]) for k in names},
                                    max_chunk_bytes=chunk, num_shards=ns).get(timeout=60)
      run.case('restore', **info, target={k: repr(s) for k, s in target.items()}, threads=threads, concurrent=conc)
      tree = {k: jax.ShapeDtypeStruct(values[k].shape, values[k].dtype, sharding=target[k]) for k in names}
      kw = dict(max_concurrent_bytes=conc)
      if threads: kw['thread_pool'] = pools[threads]
      with_tree = run.rng.random() < .85
      out = partitioned.restore_checkpoint(os.path.join(d, 'ckpt_1'), tree if with_tree else None, **kw)
      run.expect(set(out) == set(names), 'structure-restored', f'{set(out)}')
      for k in names:
        a = out[k]
        run.expect(tuple(a.shape) == values[k].shape and a.dtype == values[k].dtype, 'shape-and-type-restored', f'{k}: {a.shape} {a.dtype}')
        if with_tree: run.expect(a.sharding.is_equivalent_to(target[k], a.ndim), 'target-sharding', f'{a.sharding} vs {target[k]}')
        run.expect(np.array_equal(np.asarray(a), values[k]), 'values-restored', f'{k}: {np.asarray(a).tolist()} vs {values[k].tolist()}')
        for sh in a.addressable_shards:
          run.expect(np.array_equal(np.asarray(sh.data), values[k][sh.index]), 'shard-values-restored', f'{k} {sh.index}')
  for p in pools.values(): p.close()


@check(['C08', 'C09'])
def many_arrays(run):
  """Trees with far more arrays than the random scenarios have."""
  jax = jx()
  from vmoe.checkpoints import partitioned
  for n, ns, chunk in [(140, 7, 64), (300, 11, 4)][:run.n(1, 2)]:
    run.case('many', arrays=n, num_shards=ns, chunk=chunk)
    v = {f'a{i}': np.arange(i % 5 + 1, dtype=np.float32) + 100 * i for i in range(n)}
    with scratch() as d:
      p = os.path.join(d, 'ckpt_1')
      partitioned.save_checkpoint(p, {k: jax.device_put(a) for k, a in v.items()}, num_shards=ns, max_chunk_bytes=chunk).get(timeout=60)
      out = partitioned.restore_checkpoint(p, {k: jax.ShapeDtypeStruct(a.shape, a.dtype, sharding=jax.sharding.SingleDeviceSharding(jax.devices()[0])) for k, a in v.items()})
      for k in v: run.expect(np.array_equal(np.asarray(out[k]), v[k]), 'values-restored', f'{k}: {np.asarray(out[k])} vs {v[k]}')


@check('C08')
def many_holders(run):
  """The map of slices to array shards keeps every shard, also for arrays spread over many devices."""
  from vmoe.checkpoints import partitioned as P
  for n, reps in [(40, 3), (128, 1), (16, 16)]:
    run.case('many-holders', shards=n, replicas=reps)
    shards = [pytypes.SimpleNamespace(index=(slice(2 * i, 2 * i + 2),), replica_id=r, device=FakeDevice(r * n + i, r), data=None) for i in range(n) for r in range(reps)]
    run.rng.shuffle(shards)
    arr = pytypes.SimpleNamespace(shape=(2 * n,), dtype=np.dtype(np.float32), global_shards=shards, size=2 * n)
    out = P._create_map_slicend_to_array_shards(arr, 10**6)
    got = {tuple((s.start, s.stop) for s in k): {x.device.id for x in vs} for k, vs in out.items()}
    run.expect(got == {((2 * i, 2 * i + 2),): {r * n + i for r in range(reps)} for i in range(n)}, 'every-holder-of-every-slice', f'{len(got)} slices, {sum(map(len, got.values()))} holders')


@check('C09')
def structure_mismatch(run):
  """Restoring into a tree of another structure is refused, never silently rearranged."""
  jax = jx()
  from vmoe.checkpoints import partitioned
  sh = jax.sharding.SingleDeviceSharding(jax.devices()[0])
  mk = lambda v: jax.ShapeDtypeStruct((2,), np.float32, sharding=sh)
  saved = {'a': 1., 'b': {'c': 2., 'd': 3.}}
  with scratch() as d:
    p = os.path.join(d, 'ckpt_1')
    partitioned.save_checkpoint(p, jax.tree_util.tree_map(lambda v: jax.device_put(np.full((2,), v, np.float32)), saved)).get(timeout=60)
    for want in [{'a': 0, 'b': {'c': 0, 'x': 0}}, {'a': 0, 'b': 0, 'c': 0}, {'b': {'a': 0, 'c': 0, 'd': 0}}, {'a': 0, 'b': {'c': 0}}, {'a': 0, 'b': {'c': 0, 'd': 0, 'e': 0}}]:
      run.case('mismatch', saved=saved, wanted=want)
      run.expect(raises(lambda: partitioned.restore_checkpoint(p, jax.tree_util.tree_map(mk, want)), ValueError), 'other-structure-refused', f'{want}')


@check('C09')
def restore_multiple(run):
  from vmoe.checkpoints import base
  for n in (1, 2, 5, 9):
    run.case('multiple', files=n)
    with scratch() as d:
      m = {os.path.join(d, f'f{(i * 7) % 10}'): {'v': np.full((i + 1,), i), 'n': i} for i in range(n)}
      base.save_multiple_checkpoints_async(m).get(timeout=60)
      out = base.restore_multiple_checkpoints({k: None for k in m})
      out2 = base.restore_multiple_checkpoints({k: {'v': np.zeros(1), 'n': 0} for k in m})
      for o in (out, out2):
        run.expect(set(o) == set(m), 'all-files-restored')
        for k in m:
          run.expect(np.array_equal(o[k]['v'], m[k]['v']) and o[k]['n'] == m[k]['n'], 'each-file-restores-its-own-tree', f'{k}: {o[k]} vs {m[k]}')


# ------------------------------------------------------------------------ C11 ----
def spec_complete(files, prefix, suffixes):
  import re
  req = set(suffixes) if suffixes else {None}
  pat = re.compile(re.escape(prefix) + r'_([0-9]+)(\.[a-zA-Z]+)?(-[0-9]+-of-[0-9]+)?$')
  have, tmp = {}, set()
  for f in files:
    if f.startswith('.tmp.'):
      m = pat.fullmatch(f[5:])
      if m: tmp.add(int(m.group(1)))
      continue
    m = pat.fullmatch(f)
    if m: have.setdefault(int(m.group(1)), set()).add(m.group(2))
  return sorted(s for s, k in have.items() if req <= k and s not in tmp)


@check('C11')
def complete_steps(run):
  from vmoe.checkpoints import base
  rng = run.rng
  kinds = ['', '.index', '.data', '.data-00000-of-00002', '.data-00001-of-00002', '-0-of-1']
  for it in range(run.n(500, 5000)):
    steps = rng.sample([0, 1, 2, 3, 5, 9, 10, 11, 19, 20, 99, 100, 101, 1000], rng.choice([0, 1, 2, 3, 5]))
    files = set()
    for s in steps:
      for k in rng.sample(kinds, rng.choice([1, 1, 2, 3])): files.add(f'ckpt_{s}{k}')
      if rng.random() < .3: files.add(f'.tmp.ckpt_{s}{rng.choice(kinds)}')
    if rng.random() < .3: files.add(f'.tmp.ckpt_{rng.choice([0, 1, 10, 7])}{rng.choice(kinds)}')
    if rng.random() < .25: files.add(f'other_{rng.choice([4, 10, 77])}{rng.choice(kinds)}')
    if rng.random() < .15: files.add(f'ckpt_best_{rng.choice([3, 10, 77])}{rng.choice(kinds)}')
    if rng.random() < .1: files.add(f'.tmp.ckpt_best_{rng.choice([3, 10, 1])}{rng.choice(kinds)}')
    if rng.random() < .2: files.add('notes.txt')
    suffixes = rng.choice([None, (), ('.index',), ('.data',), ('.index', '.data'), ['.data', '.index'], [None, '.index'], (None,)])
    run.case('steps', files=sorted(files), suffixes=suffixes)
    with scratch() as d:
      for f in files: open(os.path.join(d, f), 'w').close()
      prefix = os.path.join(d, 'ckpt')
      want = spec_complete(files, 'ckpt', suffixes)
      up = list(base.iterate_complete_steps_for_prefix(prefix, suffixes))
      run.expect(up == want, 'complete-steps-increasing', f'{up} vs {want}')
      down = list(base.iterate_complete_steps_for_prefix(prefix, suffixes=suffixes, decreasing=True))
      run.expect(down == want[::-1], 'complete-steps-decreasing', f'{down} vs {want[::-1]}')
      last = base.find_latest_complete_checkpoint_for_prefix(prefix, suffixes)
      run.expect(last == (f'{prefix}_{want[-1]}' if want else None), 'latest-complete', f'{last} vs {want}')


@check('C11')
def shard_suffix(run):
  from vmoe.checkpoints import base
  names = ['ckpt', '/a/b/ckpt', 'ckpt_1', 'ckpt_12.data', '/x.y/z_3.index', 'a-b-c', 'ckpt-1-of-2', 'ck.pt_5', 'a_1_2', 'dir_3/ckpt', 'm.data', '/t/ckpt_0010.data',
           'weird--of-', 'x-of-3', 'ckpt_1.data1', 'a.b.c']
  counts = [1, 2, 9, 10, 99999, 100000, 123456]
  for n in names:
    for c in counts:
      for s in {0, c // 2, c - 1}:
        run.case('suffix', name=n, shard=s, count=c)
        f = base.add_shard_suffix(n, s, c)
        run.expect(f != n and f.startswith(n), 'suffix-appended', f)
        run.expect(base.remove_shard_suffix(f) == n, 'remove-undoes-add', f'{f} -> {base.remove_shard_suffix(f)}')
  fs = {base.add_shard_suffix('c', s, c): (s, c) for c in range(1, 40) for s in range(c)}
  run.expect(len(fs) == sum(range(1, 40)), 'names-distinct')


# ------------------------------------------------------------------------ C10 ----
def crash_points(run, overwrite, old, how, nested=False):
  """Runs save_checkpoint in child processes that die at the k-th point."""
  import sys
  from vmoe.checkpoints import base
  k = 0
  while True:
    with scratch() as d:
      sub = os.path.join(d, 'w', 'x') if nested else d
      dest = os.path.join(sub, 'ckpt_3')
      new_tree = {'a': np.arange(2000), 'b': 'new'}
      full = None
      if old:
        base.save_checkpoint(dest, {'a': np.arange(5), 'b': 'old'})
        with open(dest, 'rb') as f: old_bytes = f.read()
      else:
        old_bytes = None
      with scratch() as d2:
        p2 = os.path.join(d2, 'ref')
        base.save_checkpoint(p2, {'a': np.arange(2000), 'b': 'new'})
        with open(p2, 'rb') as f: full = f.read()
      pid = os.fork()
      if pid == 0:
        code = 9
        try:
          code = _child(base, dest, new_tree, overwrite, how, k)
        except BaseException:
          code = 7
        finally:
          os._exit(code)
      _, st = os.waitpid(pid, 0)
      code = os.waitstatus_to_exitcode(st)
      run.case('crash', how=how, point=k, overwrite=overwrite, existing=old, exit=code)
      got = None
      if os.path.exists(dest):
        with open(dest, 'rb') as f: got = f.read()
      ok = got in ((old_bytes, full) if (overwrite or not old) else (old_bytes,))
      run.expect(ok, 'destination-old-or-complete', f'{how} point {k}: destination has {None if got is None else len(got)} bytes, complete is {len(full)}, previous {None if old_bytes is None else len(old_bytes)}')
      if os.path.isdir(sub):
        for f in os.listdir(sub):
          if f == 'ckpt_3': continue
          run.expect(not f.startswith('ckpt'), 'temporary-not-mistaken-for-checkpoint', f)
          with open(os.path.join(sub, f), 'rb') as fh: part = fh.read()
          steps = list(base.iterate_complete_steps_for_prefix(os.path.join(sub, 'ckpt')))
          if part != full:
            run.expect(steps == [] , 'unfinished-step-not-offered', f'{f} of {len(part)} bytes, steps {steps}')
      for root, _, fs in os.walk(d):
        for f in fs:
          run.expect(root == sub or f == 'ckpt_3', 'temporary-in-same-directory', os.path.join(root, f))
      if code == 0:
        run.expect(got == full, 'complete-after-success')
        run.expect(os.listdir(sub) == ['ckpt_3'], 'no-temporary-left-after-success', f'{os.listdir(sub)}')
        return
      if code == 5:       # refused
        run.expect(old and not overwrite, 'refuses-only-existing', 'save raised')
        run.expect(got == old_bytes, 'existing-destination-untouched')
        return
      if code not in (9,):
        raise RuntimeError(f'child ended with {code}')
      # After the crash the same save succeeds.
      if overwrite or not old:
        base.save_checkpoint(dest, new_tree, overwrite=overwrite if not (got == full and not overwrite) else True)
        with open(dest, 'rb') as f: run.expect(f.read() == full, 'save-after-crash-succeeds')
    k += 1
    if k > 200: raise RuntimeError('too many crash points')


def _child(base, dest, tree, overwrite, how, k):
  import sys
  import builtins, shutil as sh
  ropen = builtins.open
  left = [k]

  def point():
    if left[0] == 0: os._exit(9)
    left[0] -= 1

  if how == 'line':
    fn = base.__file__
    def tr(frame, event, arg):
      if frame.f_code.co_filename != fn: return None
      if event == 'line': point()
      return tr
    sys.settrace(tr)
  else:
    g = base.gfile
    real = g.GFile
    class Crashing:
      def __init__(self, *a, **kw):
        point(); self._f = real(*a, **kw); point()
      def write(self, data):
        if left[0] == 0:
          self._f.write(data[:len(data) // 2]); self._f.flush(); os._exit(9)
        left[0] -= 1
        self._f.write(data)
        if left[0] == 0: self._f.flush()
        point()
      def __enter__(self): return self
      def __exit__(self, *a):
        point(); self._f.close(); point()
      def __getattr__(self, n): return getattr(self._f, n)
    def wrap(f):
      def w(*a, **kw):
        point(); r = f(*a, **kw); point()
        return r
      return w
    def copying(f):
      def w(src, dst, *a, **kw):
        point()
        if left[0] == 0 and os.path.isfile(src) and not os.path.isdir(dst):   # stop half way
          with ropen(src, 'rb') as fh: data = fh.read()
          if not (os.path.exists(dst) and f is not sh.copy and f is not sh.copyfile and f is not sh.copy2 and not (kw.get('overwrite') or (a and a[0]))):
            with ropen(dst, 'wb') as fh: fh.write(data[:len(data) // 2])
            os._exit(9)
        point()
        r = f(src, dst, *a, **kw); point()
        return r
      return w
    class G:
      GFile = Crashing
      def __getattr__(self, n):
        v = getattr(g, n)
        if n == 'copy': return copying(v)
        return wrap(v) if n in ('rename', 'remove', 'makedirs', 'exists', 'stat', 'isdir', 'rmtree', 'mkdir') else v
    base.gfile = G()
    os.rename, os.replace, sh.move, os.remove = map(wrap, (os.rename, os.replace, sh.move, os.remove))
    sh.copy, sh.copyfile, sh.copy2 = map(copying, (sh.copy, sh.copyfile, sh.copy2))
    def popen(f, mode='r', *a, **kw):
      h = ropen(f, mode, *a, **kw)
      if 'w' in mode or 'a' in mode:
        point()
        w = h.write
        class H:
          def write(self, data):
            if left[0] == 0: w(data[:len(data) // 2]); h.flush(); os._exit(9)
            left[0] -= 1
            return w(data)
          def __enter__(self): h.__enter__(); return self
          def __exit__(self, *x): return h.__exit__(*x)
          def __getattr__(self, n): return getattr(h, n)
        return H()
      return h
    builtins.open = popen
  try:
    base.save_checkpoint(dest, tree, overwrite=overwrite)
  except Exception:
    sys.settrace(None)
    return 5
  sys.settrace(None)
  return 0


@check('C10')
def crash_during_save(run):
  for how in ('line', 'io'):
    for old in (False, True):
      for overwrite in (True, False):
        crash_points(run, overwrite, old, how, nested=not old)


@check('C10')
def interleaved_saves(run):
  """Files saved at the same time in one directory never share partial data."""
  import threading
  from vmoe.checkpoints import base
  pairs = [('ckpt_1.data-00000-of-00002', 'ckpt_1.data-00001-of-00002'), ('ckpt_1.index', 'ckpt_1.data-00000-of-00001'), ('ckpt_1', 'ckpt_2'), ('ckpt_1', 'ckpt_10'),
           ('a_1', 'b_1'), ('ckpt_1.data', 'ckpt_1.data-00000-of-00001'), ('ckpt_1.index', 'ckpt_2.index'), ('m', 'n')]
  g = base.gfile
  for a, b in pairs + [(b, a) for a, b in pairs]:
    run.case('interleaved', first=a, second=b)
    with scratch() as d:
      pa, pb = os.path.join(d, a), os.path.join(d, b)
      inside, go = threading.Event(), threading.Event()
      main = threading.get_ident()
      class Slow:
        def __init__(self, *x, **kw):
          self._f, self._n = g.GFile(*x, **kw), 0
        def write(self, data):
          if threading.get_ident() == main: return self._f.write(data)
          self._f.write(data[:len(data) // 2])
          self._f.flush()
          inside.set(); go.wait(20)
          self._f.write(data[len(data) // 2:])
        def __enter__(self): return self
        def __exit__(self, *x): self._f.close()
        def __getattr__(self, n): return getattr(self._f, n)
      class G:
        GFile = Slow
        def __getattr__(self, n): return getattr(g, n)
      err = []
      def first():
        try: base.save_checkpoint(pa, {'who': a, 'pad': 'x' * 3000})
        except Exception as e: err.append(e)
      with mock.patch.object(base, 'gfile', G()):
        th = threading.Thread(target=first); th.start()
        if not inside.wait(20): go.set()
        try: base.save_checkpoint(pb, {'who': b, 'pad': 'y' * 50})
        except Exception as e: err.append(e)
        run.expect(err or not os.path.exists(pa) or os.path.getsize(pa) > 3000, 'destination-complete-or-absent', f'{a} has {os.path.exists(pa) and os.path.getsize(pa)} bytes while it is being written')
        go.set(); th.join(30)
      run.expect(not err, 'saves-independent', f'{err}')
      for p, n in ((pa, a), (pb, b)):
        run.expect(os.path.exists(p), 'destination-present', f'{n}: {sorted(os.listdir(d))}')
        try: who = base.restore_checkpoint(p)['who']
        except Exception as e: who = repr(e)
        run.expect(who == n, 'destination-complete', f'{n} holds {who}')


@check('C10')
def no_overwrite(run):
  from vmoe.checkpoints import base
  for it in range(run.n(6, 20)):
    with scratch() as d:
      dest = os.path.join(d, 'ckpt_5')
      base.save_checkpoint(dest, {'a': it})
      with open(dest, 'rb') as f: before = f.read()
      run.case('no_overwrite', it=it)
      for fn in (lambda: base.save_checkpoint(dest, {'a': 'x' * 100}, overwrite=False),
                 lambda: base.save_checkpoint_async(dest, {'a': 'x' * 100}, overwrite=False).get(60),
                 lambda: base.save_multiple_checkpoints_async({dest: {'a': 'x' * 100}}, overwrite=False).get(60)):
        run.expect(raises(fn), 'refuses-existing-destination')
        with open(dest, 'rb') as f: run.expect(f.read() == before, 'existing-destination-untouched')
      base.save_checkpoint(dest, {'a': 'y' * 50}, overwrite=True)
      run.expect(base.restore_checkpoint(dest) == {'a': 'y' * 50}, 'overwrite-replaces')
      base.save_checkpoint_async(dest, {'a': 'z'}).get(60)
      run.expect(base.restore_checkpoint(dest) == {'a': 'z'}, 'overwrite-replaces')


# ------------------------------------------------------------------------ C12 ----
@check('C12')
def roundtrip_types(run):
  from vmoe.checkpoints import serialization as S, types as T
  jax = jx()
  from jax import core
  rng = run.rng
  vals = [None, 0, 1, 2, 5, 127, 128, 255, 256, 65535, 65536, 2**31, 2**40, -1, -5, -128, -129]
  def sl():
    return T.Slice(rng.choice(vals), rng.choice(vals), rng.choice([None, None, 1, 2, -1]))
  def rt(x): return S.msgpack_restore(S.msgpack_serialize(x))
  for a, b in itertools.product(vals, vals):
    for c in (None, 1, -1, 3):
      run.case('slice', s=(a, b, c))
      x = T.Slice(a, b, c)
      y = rt({'x': x})['x']
      run.expect(isinstance(y, T.Slice) and y.tuple == x.tuple and (y.start, y.stop, y.step) == (a, b, c) and y == x and hash(y) == hash(x), 'slice', f'{y!r} vs {x!r}')
  for it in range(run.n(200, 2000)):
    nd = rng.choice([0, 1, 2, 3, 6, 16, 20])
    s = T.SliceNd([sl() for _ in range(nd)])
    run.case('slicend', s=repr(s))
    y = rt([s, {'q': s}])
    run.expect(type(y[0]) is T.SliceNd and y[0] == s and y[1]['q'] == s and len(y[0]) == nd, 'slice-nd', f'{y}')
    shp = rng.choice([(1,), (2,), (2, 2), (3, 1), (1, 2, 2)])
    arr = T.SliceNdArray.create([T.SliceNd([sl() for _ in range(2)]) for _ in range(int(np.prod(shp)))], shape=shp)
    z = rt({'z': arr})['z']
    zt = rt({'z': arr.T})['z']
    run.expect(zt.shape == arr.T.shape and all(p == q for p, q in zip(zt.flat, arr.T.flat)), 'slice-nd-array', f'transposed: {zt} vs {arr.T}')
    run.expect(isinstance(z, T.SliceNdArray) and z.shape == arr.shape and all(p == q for p, q in zip(z.flat, arr.flat)), 'slice-nd-array', f'{z} vs {arr}')
    shape = rand_shape(rng)
    dt = rng.choice(DTYPES + ['int8', 'uint16', 'uint32', 'float8_e4m3fn', 'int16'])
    wt = rng.choice([True, False])
    sa = core.ShapedArray(shape, jax.numpy.dtype(dt), weak_type=wt)
    w = rt({'s': sa})['s']
    run.expect(w == sa and tuple(w.shape) == shape and w.dtype == sa.dtype and bool(w.weak_type) == wt, 'array-description', f'{w} vs {sa}')
    gs = [T.SliceNd([sl() for _ in shape]) for _ in range(rng.choice([0, 1, 3]))]
    ii = T.IndexInfo(sa, gs, [rng.choice([0, 1, 7, 300, 70000]) for _ in gs])
    v = rt({'i': ii})['i']
    run.expect(v.global_shape == sa and bool(v.global_shape.weak_type) == wt and list(v.global_slices) == gs and list(v.shards) == list(ii.shards), 'index-entry', f'{v} vs {ii}')
    for z0 in (complex(1.5, -2), complex(rng.choice([0, -1, 2.5, .1]), rng.choice([0, 0, 3, .1, 1e-40, 1e300]))):
      zc = rt({'c': z0})['c']
      run.expect(zc == z0 and isinstance(zc, complex), 'complex', f'{zc!r} vs {z0!r}')
    for sv in (np.bool_(True), np.float64(.1), np.uint8(200), np.int64(2**40), np.complex64(1 + .1j)):
      y = rt({'s': sv})['s']
      run.expect(type(y) is type(sv) and y == sv, 'numpy-scalar', f'{y!r} ({type(y)}) vs {sv!r} ({type(sv)})')
    sc = rt({'n': np.float32(1.25), 'i': np.int16(-7)})
    run.expect(sc['n'] == np.float32(1.25) and sc['i'] == -7, 'numpy-scalar')


@check('C12')
def roundtrip_chunks(run):
  from vmoe.checkpoints import serialization as S, types as T
  rng = run.rng
  limits = [None, 1, 2, 3, 4, 7, 8, 16, 40, 64, 65, 10**6]
  for it in range(run.n(250, 2500)):
    lac, want = T.LazyArrayChunks(), {}
    lim = rng.choice(limits)
    desc = []
    for idx in rng.sample([0, 1, 2, 10, 33], rng.choice([0, 1, 2, 3])):
      want[idx] = []
      for _ in range(rng.choice([1, 1, 2, 4])):
        v = rand_value(run, rand_shape(rng), rng.choice(DTYPES))
        if rng.random() < .3: v = np.asfortranarray(v)
        elif rng.random() < .2: v = v[::-1] if v.ndim else v
        ls, gs = [], []
        for n in v.shape:
          lo = rng.randrange(0, n + 1); hi = rng.randrange(lo, n + 1)
          if rng.random() < .3: lo, hi = 0, n
          off = rng.choice([0, 3, 100])
          ls.append(T.Slice(lo, hi)); gs.append(T.Slice(lo + off, hi + off))
        ls, gs = T.SliceNd(ls), T.SliceNd(gs)
        lac.add(idx, v, ls, gs)
        desc.append((idx, v.shape, str(v.dtype), boxes(ls)))
        want[idx].append((v[tuple(slice(s.start, s.stop) for s in ls)].copy(), gs))
    run.case('chunks', chunks=desc, limit=lim)
    with contextlib.ExitStack() as st:
      if lim is not None and hasattr(S, '_MAX_CHUNK_SIZE'):
        st.enter_context(mock.patch.object(S, '_MAX_CHUNK_SIZE', lim))
      out = S.from_bytes(T.ArrayChunks(), S.to_bytes(lac))
    run.expect(isinstance(out, T.ArrayChunks), 'decodes-to-chunks')
    run.expect(set(out.chunks) == set(want) and set(out.global_slices) == set(want), 'array-ids', f'{set(out.chunks)} vs {set(want)}')
    for idx in want:
      got = list(out.iter_chunks(idx))
      run.expect(len(got) == len(want[idx]), 'number-of-chunks', f'{len(got)} vs {len(want[idx])}')
      for (c, g), (wc, wg) in zip(got, want[idx]):
        run.expect(g == wg, 'chunk-slice', f'{g} vs {wg}')
        run.expect(c.shape == wc.shape and c.dtype == wc.dtype and np.array_equal(c, wc), 'chunk-data', f'{c!r} vs {wc!r}')
    for idx in want:
      for (c, g), (wc, wg) in zip(lac.iter_chunks(idx), want[idx]):
        run.expect(np.array_equal(c, wc) and g == wg, 'lazy-chunk-data')


@check('C12')
def slice_values(run):
  """Slices behave as values: equality, order and hashing agree with (start, stop, step)."""
  from vmoe.checkpoints import types as T
  vals = [0, 1, 2, 7]
  xs = [T.Slice(a, b) for a in vals for b in vals]
  for x, y in itertools.product(xs, xs):
    run.case('order', x=x.tuple, y=y.tuple)
    run.expect((x == y) == (x.tuple == y.tuple), 'equality')
    run.expect(not (x == y) or hash(x) == hash(y), 'hash')
    if x.tuple[:2] != y.tuple[:2]: run.expect((x < y) == (x.tuple[:2] < y.tuple[:2]), 'order', f'{x} {y}')
    run.expect(x == slice(*x.tuple), 'equal-to-python-slice')
  a = np.arange(60).reshape(3, 4, 5)
  for _ in range(run.n(60, 400)):
    nd = run.rng.choice([0, 1, 2, 3])
    s = [slice(run.rng.choice([None, 0, 1, 2]), run.rng.choice([None, 0, 1, 3, 4]), run.rng.choice([None, 1, 2])) for _ in range(nd)]
    run.case('chunk', s=repr(s))
    run.expect(np.array_equal(T.SliceNd([T.Slice(x) for x in s]).chunk(a), a[tuple(s)]), 'chunk-of-array')
    run.expect(T.SliceNd(*[T.Slice(x) for x in s]) == T.SliceNd([T.Slice(x) for x in s]), 'constructors-agree')
