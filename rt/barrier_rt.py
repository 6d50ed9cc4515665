"""C30: barriers, on the real code: simulated processes in threads, with a real barrier in place of the collective."""
import contextlib
import os
import threading
from unittest import mock

import numpy as np
from rt.base import check, raises
from rt import ckpt_rt


def jx():
  import jax
  return jax


@check('C30')
def barrier(run):
  jax = jx()
  from vmoe import multihost_utils as mh
  n = jax.local_device_count()
  for name in ('a', 'checkpoints:mkdir:/x/y', 'é' * 40, 'training:completed', *[str(run.rng.random()) for _ in range(run.n(5, 40))]):
    run.case('sync', name=name)
    mh.sync_devices(name)
    run.expect(raises(lambda: mh.sync_devices(name, main_process=1)), 'fails-without-the-name-of-the-main-process', name)
    # other processes: what they contribute, and what they make of the total.
    for me, main in ((0, 0), (1, 0), (0, 2), (2, 2), (3, 1)):
      import zlib
      total, got = [], []
      h = zlib.crc32(name.encode())
      def psum(x):
        got.append(np.array(x, dtype=np.uint64))
        return np.full(n, total[-1], np.uint32)
      with mock.patch.object(mh, '_sync_devices_sum', psum), mock.patch.object(jax, 'process_index', lambda *a: me), mock.patch.object(jax, 'process_count', lambda *a: 4):
        total.append(h)
        mh.sync_devices(name, main_process=main)
        run.expect(len(got) == 1, 'waits-once', f'{len(got)}')
        run.expect(int(got[0].sum()) == (h if me == main else 0) and got[0].shape == (n,), 'only-the-main-process-contributes', f'{got[0]} from process {me}, main {main}')
        for other in ('b', 'other', name + 'x', name + ' '):
          total.append(zlib.crc32(other.encode()))
          if me != main: run.expect(raises(lambda: mh.sync_devices(name, main_process=main)), 'fails-under-another-name', f'{name!r} vs {other!r}')


class Procs:
  """P threads acting as processes; sync_devices is a barrier of all of them."""

  def __init__(self, P, timeout=10):
    self.P, self.local = P, threading.local()
    self.barrier = threading.Barrier(P)
    self.timeout = timeout
    self.trace = {p: [] for p in range(P)}
    self.events = []
    self.lock = threading.Lock()

  def me(self, *a): return self.local.p

  def log(self, *e):
    with self.lock:
      self.trace[self.local.p].append(e)
      self.events.append((self.local.p, *e))

  def sync(self, name, *a, **k):
    self.log('sync', name)
    self.barrier.wait(self.timeout)

  def run(self, f):
    """f(p) in every process; returns results/exceptions."""
    out = {}
    def go(p):
      self.local.p = p
      try: out[p] = ('ok', f(p))
      except threading.BrokenBarrierError: out[p] = ('deadlock', None)
      except Exception as e:   # pylint: disable=broad-except
        out[p] = ('error', e); self.barrier.abort()
        return
      # this process is done: nobody may still be waiting for it.
    ts = [threading.Thread(target=go, args=(p,), daemon=True) for p in range(self.P)]
    for t in ts: t.start()
    for t in ts: t.join(self.timeout + 50)
    return out


@contextlib.contextmanager
def as_processes(ps, *more):
  jax = jx()
  from vmoe import multihost_utils
  orig = jax.Array
  class M(type):
    def __instancecheck__(cls, x): return isinstance(x, (orig, ckpt_rt.FakeArray))
  class AnyArray(metaclass=M): pass
  with contextlib.ExitStack() as es:
    for o, n, v in ((jax, 'Array', AnyArray), (jax, 'process_count', lambda *a: ps.P), (jax, 'process_index', ps.me), (multihost_utils, 'sync_devices', ps.sync), *more):
      es.enter_context(mock.patch.object(o, n, v))
    yield


@check('C30')
def saving(run):
  from vmoe.checkpoints import partitioned, base
  rng = run.rng
  for it in range(run.n(20, 200)):
    P, devices, names, values, layouts, ns_, chunk = ckpt_rt.scenario(run)
    with ckpt_rt.scratch() as d:
      mk = rng.random() < .8
      sub = os.path.join(d, 'x', 'y') if mk else d
      if mk and rng.random() < .3: os.makedirs(sub)
      run.case('save', makedirs=mk, **ckpt_rt.describe(P, values, layouts, ns_, chunk))
      ps = Procs(P)
      g = base.gfile
      real = g.makedirs
      def makedirs(p, *a, **k): ps.log('mkdir', p) if hasattr(ps.local, 'p') else None; return real(p, *a, **k)
      def one(p):
        t = {k: ckpt_rt.FakeArray(values[k], layouts[k][0], p) for k in names}
        if rng.random() < .3: threading.Event().wait(.01)
        partitioned.save_checkpoint(os.path.join(sub, 'ckpt_1'), t, max_chunk_bytes=chunk, makedirs=mk, **({} if ns_ is None else dict(num_shards=ns_))).get(timeout=60)
      with as_processes(ps, (g, 'makedirs', makedirs)): out = ps.run(one)
      run.expect(all(out.get(p, ('hangs',))[0] == 'ok' for p in range(P)), 'every-process-finishes', f'{out} {ps.trace}')
      syncs = [[e for e in ps.trace[p] if e[0] == 'sync'] for p in range(P)]
      run.expect(all(s == syncs[0] for s in syncs), 'same-barriers-in-every-process', f'{syncs}')
      run.expect(all(e[0] == 'sync' for p in range(1, P) for e in ps.trace[p]), 'only-the-first-process-makes-directories', f'{ps.trace}')
      if mk: run.expect(len(syncs[0]) >= 1, 'barrier-after-making-the-directory')
      index, files = ckpt_rt.load_raw(sub)
      run.expect(all(f is not None for f in files.values()), 'all-files-written', f'{sorted(os.listdir(sub))}')


@check('C30')
def manager(run):
  from rt import absent
  absent.install()
  from vmoe.train import trainer as TR
  import tempfile
  for it in range(run.n(12, 60)):
    P = run.rng.choice([1, 2, 3, 5])
    with tempfile.TemporaryDirectory() as d:
      have = run.rng.random() < .4
      wd = os.path.join(d, 'a', 'b')
      if have: os.makedirs(os.path.join(wd, 'ckpt'))
      kw = run.rng.choice([{}, dict(keep_last=3), dict(keep_last=2, keep_steps_multiple_of=7, wait_seconds=5)])
      run.case('manager', processes=P, exists=have, **kw)
      ps = Procs(P)
      def mgr(directory, *a, options=None, **k):
        ps.log('manager', str(directory), os.path.isdir(directory), options.save_interval_steps, options.max_to_keep, options.keep_period)
        return 'mgr'
      real = TR.tf.io.gfile.makedirs
      def makedirs(p): ps.log('mkdir', p); return real(p)
      with as_processes(ps, (TR.orbax.checkpoint, 'CheckpointManager', mgr), (TR.orbax.checkpoint, 'AsyncCheckpointer', mock.MagicMock()), (TR.orbax.checkpoint, 'Checkpointer', mock.MagicMock()), (TR.tf.io.gfile, 'makedirs', makedirs)):
        out = ps.run(lambda p: TR.create_checkpoint_manager(workdir=wd, every_steps=4, **kw))
      run.expect(all(out.get(p) == ('ok', 'mgr') for p in range(P)), 'every-process-finishes', f'{out} {ps.trace}')
      syncs = [[e for e in ps.trace[p] if e[0] == 'sync'] for p in range(P)]
      run.expect(all(s == syncs[0] and s for s in syncs), 'same-barriers-in-every-process', f'{syncs}')
      run.expect(not any(e[0] == 'mkdir' for p in range(1, P) for e in ps.trace[p]), 'only-the-first-process-makes-directories', f'{ps.trace}')
      for p in range(P):
        e = [e for e in ps.trace[p] if e[0] == 'manager']
        run.expect(e == [('manager', os.path.join(wd, 'ckpt'), True, 4, kw.get('keep_last'), kw.get('keep_steps_multiple_of'))], 'manager-on-an-existing-directory-as-configured', f'{e}')


def train_trace(run, TR, contrastive, P, init, last, first, final):
  import ml_collections
  import tempfile
  import types
  ns = types.SimpleNamespace
  ps = Procs(P)
  class State:
    params = {'w': 1}
    def __init__(self, s): self.step = s
  import jax
  jax.tree_util.register_pytree_node(State, lambda s: ((), s.step), lambda a, c: State(a)) if False else None
  with tempfile.TemporaryDirectory() as d:
    wd = os.path.join(d, 'w')
    os.makedirs(os.path.join(wd, 'ckpt'))
    if first: os.makedirs(os.path.join(wd, 'ckpt', '0'))
    if final: os.makedirs(os.path.join(wd, 'ckpt', str(last)), exist_ok=True)
    class Mgr:
      def save(self, step, items=None, force=False, **k):
        ps.log('save', int(step), bool(force))
        if force and ps.me() == 0: os.makedirs(os.path.join(wd, 'ckpt', str(step)), exist_ok=True)
      def wait_until_finished(self): ps.log('wait')
    class F:
      def lower(self, *a): return self
      def compile(self): return self
      def __call__(self, s, a, b): ps.log('step'); return State(s.step + 1), {'loss': 1.}
    class Pr:
      def __call__(self, *a, **k): pass
      def timed(self, *a, **k): return contextlib.nullcontext()
    def hook(n): return lambda s, *a, **k: ps.log(n, int(s))
    cfg = ml_collections.ConfigDict(dict(dataset=dict(train=dict(batch_size=4)), model=dict(name='x'), optimizer={}, params_axis_resources=[], loss=dict(name='softmax_xent'), train_steps=last))
    more = [(TR.input_pipeline, 'get_datasets', lambda c: dict(train=1)), (TR.input_pipeline, 'get_data_num_examples', lambda c: 10),
            (TR.pjit_utils, 'get_dataset_shape_dtype_struct', lambda d_: dict(image=ns(sharding=1), labels=2, text=3)),
            (TR, 'create_checkpoint_manager', lambda **k: Mgr()), (TR, 'make_create_train_state_fn', lambda **k: None),
            (TR, 'create_flax_model', lambda **k: None), (TR, 'restore_or_create_train_state', lambda **k: (State(init), None)),
            (TR, 'get_dataset_iterator', lambda **k: iter([dict(image=1, labels=2, text=3)] * 20)),
            (TR.jax.tree_util, 'tree_map', lambda f, *t, **k: None),
            (TR, 'create_profile_hook', lambda **k: (lambda s: None)), (TR, 'create_progress_hook', lambda **k: Pr()),
            (TR.utils, 'get_flops_and_seconds_per_device', lambda f: (None, None)), (TR, 'make_train_cost_fn', lambda f: (lambda s: {})),
            (TR, 'ThreadPool', lambda: None)]
    if contrastive:
      more += [(TR.jax, 'jit', lambda *a, **k: F()), *[(TR, f'create_{n}_hook', lambda n=n, **k: hook(n)) for n in ('fewshot', 'retrieval', 'zeroshot')]]
    else:
      more += [(TR.pjit, 'pjit', lambda *a, **k: F()), (TR, 'create_evaluation_hook', lambda **k: (hook('evaluation'), {})), (TR, 'create_fewshot_hook', lambda **k: (hook('fewshot'), {}))]
    with as_processes(ps, *more):
      mesh = ns(axis_names=('expert', 'replica'))
      out = ps.run(lambda p: TR.train_and_evaluate(cfg, wd, mesh, mock.MagicMock()))
  return ps, out


@check('C30')
def training(run):
  from rt import absent
  absent.install()
  from vmoe.train import trainer
  mods = [(trainer, False)]
  try:
    from vmoe.projects.contrastive import trainer as ct
    mods.append((ct, True))
  except ImportError:
    pass
  for TR, contrastive in mods:
    for it in range(run.n(10, 60)):
      P = run.rng.choice([1, 2, 3])
      last = run.rng.choice([1, 2, 4])
      init = run.rng.choice([0, 0, 0, last, run.rng.randrange(last + 1)])
      first, final = run.rng.random() < .4, run.rng.random() < .4
      run.case('training', trainer=TR.__name__, processes=P, restored_step=init, train_steps=last, first_exists=first, last_exists=final)
      ps, out = train_trace(run, TR, contrastive, P, init, last, first, final)
      run.expect(all(out.get(p, ('hangs',))[0] == 'ok' for p in range(P)), 'every-process-finishes', f'{out} {ps.trace}')
      for p in range(P):
        run.expect(ps.trace[p] == ps.trace[0], 'same-barriers-steps-saves-and-evaluations', f'process {p}: {ps.trace[p]} vs {ps.trace[0]}')
      t = ps.trace[0]
      run.expect(bool(t) and t[-1][0] == 'sync', 'ends-with-a-barrier', f'{t}')
      for k, e in enumerate(t):
        if e[0] == 'save' and e[2]: run.expect(any(x[0] == 'sync' for x in t[:k]) and t[k - 1][0] == 'sync', 'forced-save-after-a-barrier', f'{t}')
