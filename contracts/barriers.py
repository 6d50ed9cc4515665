"""C30: barriers are the same for every process (vmoe/multihost_utils.py, checkpoints/partitioned.py, train/trainer.py,
projects/contrastive/trainer.py)."""
import os as _os
import types as _types
import z3
from vc import core, loader
from vc.core import assume, obligation, fresh_int, fresh_bool, fresh_str, term, wrap, decide
from vc.engine import contract
from vc.stubs import Over
from contracts.train_step import use, Cfg

SYNC = 'vmoe.multihost_utils'
PART = 'vmoe.checkpoints.partitioned'
TRAIN = 'vmoe.train.trainer'
CONTR = 'vmoe.projects.contrastive.trainer'
ns = _types.SimpleNamespace


class Vec:
  """Integer vector: zeros with some positions written."""
  __vc_symbolic__ = True
  def __init__(self, n, base=0): self.n, self.base, self.writes = n, base, []
  def __setitem__(self, k, v): self.writes.append((k, v))
  def __len__(self): raise core.Unsupported('len of a vector')


class Total:
  """What the sum over all devices leaves on each local device: the same number everywhere."""
  __vc_symbolic__ = True
  def __init__(self, t): self.t = t
  def __eq__(self, o): return AllEq(self.t == core.num(term(o)))
  def __ne__(self, o): return AllEq(self.t != core.num(term(o)))
  __hash__ = object.__hash__
  def __getitem__(self, k): return wrap(self.t)
  def __repr__(self): return 'total'


class AllEq:
  """The same truth on every local device (of which there is at least one)."""
  __vc_symbolic__ = True
  def __init__(self, b): self.b = b
  def all(self): return wrap(self.b)
  any = all
  def __invert__(self): return AllEq(z3.Not(self.b))


@contract('C30', functions=[f'{SYNC}.sync_devices'])
def barrier():
  """Any name, process, main process, number of local devices, and whatever name the main process waits under."""
  m = loader.load(SYNC)
  c = core.cur()
  p, main, pc = fresh_int('process', 0), fresh_int('main_process', 0), fresh_int('process_count', 1)
  assume(z3.And(p.t < pc.t, main.t < pc.t))
  Crc = z3.Function(c.fresh('Crc32'), z3.StringSort(), z3.IntSort())
  mine, theirs = fresh_str('name'), fresh_str('name_of_main')
  s = z3.String(c.fresh('s'))
  assume(z3.ForAll([s], z3.And(Crc(s) >= 0, Crc(s) < 2 ** 32), patterns=[Crc(s)]))
  class Name:
    __vc_symbolic__ = True
    t = mine.t
    def encode(self, *a): return self
  given = []
  def zeros(n, dtype=None):
    obligation('one number per local device', z3.BoolVal(n == 'LOCAL' or n == ('LOCAL',)))
    return Vec('LOCAL')
  def psum(x):
    given.append(x)
    if not isinstance(x, Vec): raise core.Unsupported('argument of the collective')
    return Total(Crc(theirs.t))
  def full(n, v, dtype=None): return Vec(n, v)
  np_ = ns(uint32=lambda v: v, zeros=zeros, full=full, asarray=lambda x, *a, **k: x, array=lambda x, *a, **k: x, all=lambda x: x.all() if isinstance(x, AllEq) else x, any=lambda x: x.any() if isinstance(x, AllEq) else x)
  core.assumption('assumed: the collective returns on every device the sum (modulo 2**32) over all devices of all processes, once every process has called it')
  own = decide(p.t == main.t)
  if own: assume(mine.t == theirs.t)
  failed = False
  with use(m, np=np_, zlib=ns(crc32=lambda b: wrap(Crc(b.t))), _sync_devices_sum=psum,
           jax=Over(m.jax, process_index=lambda *a: p, process_count=lambda *a: pc, local_device_count=lambda *a: 'LOCAL')):
    try: m.sync_devices(Name(), main_process=main)
    except ValueError: failed = True
  obligation('waits for the other processes exactly once', z3.Implies(pc.t > 1, z3.BoolVal(len(given) == 1)))
  if given:
    x = given[0]
    k = z3.Int(c.fresh('device'))
    # contribution of the local devices, summed: the checksum of the name from the main process, nothing from the others.
    if core.is_sym(x.base) or x.base != 0: obligation('other devices contribute nothing', z3.BoolVal(False))
    tot = sum([core.num(term(v)) for _, v in x.writes], z3.IntVal(0))
    if len({kk if isinstance(kk, int) else id(kk) for kk, _ in x.writes}) != len(x.writes): raise core.Unsupported('overwritten contribution')
    obligation('only the main process contributes, the checksum of its name', tot == z3.If(p.t == main.t, Crc(mine.t), 0))
    if failed: obligation('fails only under another name', Crc(mine.t) != Crc(theirs.t))
    else: obligation('passes only under the same name', Crc(mine.t) == Crc(theirs.t))


def processes():
  """(main process, some other process)"""
  q = fresh_int('another_process', 1)
  pc = fresh_int('process_count', 2)
  assume(q.t < pc.t)
  return [0, q], pc


def same_trace(a, b):
  """Events compared: names and kinds exactly."""
  return z3.BoolVal(a == b)


@contract('C30', functions=[f'{PART}._make_dir_sync'])
def make_directory():
  m = loader.load(PART)
  b = loader.load('vmoe.checkpoints.base')
  ps, pc = processes()
  wd = fresh_str('directory')
  traces = []
  for p in ps:
    ev = []
    g = Over(b.gfile, makedirs=lambda d: ev.append(('mkdir', d)), exists=lambda d: core.fresh_bool('exists'), isdir=lambda d: core.fresh_bool('isdir'))
    with use(b, gfile=g), use(m, base=b, multihost_utils=ns(sync_devices=lambda n, *a, **k: ev.append(('sync', n))),
                              jax=Over(m.jax, process_index=lambda *a: p, process_count=lambda *a: pc)):
      m._make_dir_sync(wd)
    traces.append(ev)
  t0, t1 = traces
  sync = [[x for x in t if x[0] == 'sync'] for t in traces]
  obligation('one barrier in every process', z3.BoolVal(len(sync[0]) == len(sync[1]) == 1))
  obligation('the same barrier', core.term_str(sync[0][0][1]) == core.term_str(sync[1][0][1]))
  obligation('nobody leaves before the directory exists', z3.BoolVal(t0[-1][0] == 'sync'))
  obligation('only the first process creates the directory', z3.BoolVal(not any(x[0] == 'mkdir' for x in t1)))
  for x in t0:
    if x[0] == 'mkdir': obligation('the requested directory', core.term_str(x[1]) == wd.t)


@contract('C30', functions=[f'{PART}.save_checkpoint', f'{PART}._make_dir_sync', f'{PART}._create_map_filepath_to_data'],
          bounded='at most 4 files and one array; any process, with and without creating the directory')
def save_barriers():
  m = loader.load(PART)
  b = loader.load('vmoe.checkpoints.base')
  mk = bool(core.choose(2))
  n = [None, 1, 4][core.choose(3)]
  pcn = 1 + core.choose(3)
  traces = []
  class Arr:
    dtype = ns(itemsize=4)
    def copy_to_host_async(self): return None
  arr = Arr()
  arrays = [] if core.choose(2) else [arr]
  for p in range(pcn):
    ev = []
    g = Over(b.gfile, makedirs=lambda d: ev.append(('mkdir', d)), exists=lambda d: False, isdir=lambda d: False)
    def save_multiple(files, **k): ev.append(('write', sorted(map(str, files)), p)); return 'result'
    with use(b, gfile=g, save_multiple_checkpoints_async=save_multiple), \
         use(m, base=b, multihost_utils=ns(sync_devices=lambda s, *a, **k: ev.append(('sync', s))),
             to_state_dict=lambda t: t, tree_flatten=lambda t: (list(arrays), ns(unflatten=lambda x: x)), tree_map=lambda f, t: [f(x) for x in t],
             _create_map_slicend_to_array_shards=lambda *a: {}, _create_map_slicend_to_checkpoint_shard=lambda *a: {}, _make_index_info=lambda *a: 'info',
             _update_lazy_array_chunks_with_leaf=lambda *a: None, _replace_jax_with_numpy_in_lazy_array_chunks=lambda *a: None,
             jax=Over(m.jax, process_index=lambda *a, p=p: p, process_count=lambda *a: pcn, Array=Arr)):
      r = m.save_checkpoint('dir/ckpt_3', {'w': arr}, makedirs=mk, **({} if n is None else dict(num_shards=n)))
    obligation('the result is the pending save', z3.BoolVal(r == 'result'))
    traces.append(ev)
  sync = [[x for x in t if x[0] == 'sync'] for t in traces]
  obligation('the same barriers in every process', z3.BoolVal(all(s == sync[0] for s in sync)))
  for p, t in enumerate(traces):
    kinds = [x[0] for x in t]
    obligation('every process writes its files exactly once', z3.BoolVal(kinds.count('write') == 1))
    if mk: obligation('nothing is written before the barrier after the directory is created', z3.BoolVal('sync' in kinds and kinds.index('sync') < kinds.index('write') and ('mkdir' not in kinds or kinds.index('mkdir') < kinds.index('sync'))))
    obligation('only the first process creates the directory, if asked to', z3.BoolVal(('mkdir' in kinds) == (mk and p == 0)))
  num = max(n or 0, pcn)
  files = [f for t in traces for x in t if x[0] == 'write' for f in x[1]]
  want = ['dir/ckpt_3.index'] + [f'dir/ckpt_3.data-{i:05d}-of-{num:05d}' for i in range(num)]
  obligation('every file is written by exactly one process', z3.BoolVal(sorted(files) == sorted(want)))


@contract('C30', functions=[f'{TRAIN}.create_checkpoint_manager'])
def manager_barriers():
  m = loader.load(TRAIN)
  ps, pc = processes()
  ex = bool(core.choose(2))
  kw = [{}, dict(keep_last=fresh_int('keep', 1), keep_steps_multiple_of=fresh_int('period', 1), wait_seconds=fresh_int('wait', 1))][core.choose(2)]
  every = fresh_int('every_steps', 1)
  traces = []
  for p in ps:
    ev = []
    class Opt:
      def __init__(self, **k): self.k = k
    def manager(d, ckpts, options=None, **k):
      ev.append(('manager', d))
      o = options.k
      obligation('checkpoints as often as configured', core.same(o['save_interval_steps'], every))
      obligation('keeps the configured checkpoints', z3.BoolVal(o.get('max_to_keep') is kw.get('keep_last') and o.get('keep_period') is kw.get('keep_steps_multiple_of')))
      return 'manager'
    oc = ns(checkpoint=ns(CheckpointManagerOptions=Opt, CheckpointManager=manager, AsyncCheckpointer=lambda *a, **k: None, PyTreeCheckpointHandler=lambda *a, **k: None,
                          Checkpointer=lambda *a, **k: None, JsonCheckpointHandler=lambda *a, **k: None))
    with use(m, orbax=oc, multihost_utils=ns(sync_devices=lambda s, *a, **k: ev.append(('sync', s))), os=ns(path=ns(join=lambda *a: '/'.join(a))),
             tf=ns(io=ns(gfile=ns(exists=lambda d: ex, makedirs=lambda d: ev.append(('mkdir', d)), isdir=lambda d: ex))),
             jax=Over(m.jax, process_index=lambda *a: p, process_count=lambda *a: pc)):
      r = m.create_checkpoint_manager(workdir='work', every_steps=every, **kw)
    obligation('returns the manager', z3.BoolVal(r == 'manager'))
    traces.append(ev)
  t0, t1 = traces
  f = lambda t: [x for x in t if x[0] == 'sync']
  obligation('the same barriers in every process', z3.BoolVal(f(t0) == f(t1) and len(f(t0)) >= 1))
  obligation('only the first process creates the directory', z3.BoolVal(not any(x[0] == 'mkdir' for x in t1)))
  for t in traces:
    k = [x[0] for x in t]
    obligation('the manager is made after the barrier', z3.BoolVal('sync' in k and k.index('manager') > k.index('sync') and ('mkdir' not in k or k.index('mkdir') < k.index('sync'))))
  obligation('the directory exists when the manager is made', z3.BoolVal(ex or ('mkdir', 'work/ckpt') in t0))
  obligation('the directory of the checkpoints', z3.BoolVal(t0[-1] == ('manager', 'work/ckpt')))


def loop_trace(m, p, pc, init, last, exists, contrastive):
  """Events of a process running train_and_evaluate."""
  ev = []
  class Writer:
    def write_scalars(self, *a): pass
  class Ctxm:
    def __enter__(self): return self
    def __exit__(self, *a): return False
  class Mgr:
    def save(self, step, items=None, force=False, **k): ev.append(('save', step, force))
    def wait_until_finished(self): ev.append(('wait',))
  class State:
    def __init__(self, s): self.step, self.params = s, 'params'
  class F:
    def lower(self, *a): return self
    def compile(self): ev.append(('compile',)); return self
    def __call__(self, state, a, b): ev.append(('step',)); return State(state.step + 1), dict(loss=0.)
  class Progress:
    def __call__(self, step, **k): pass
    def timed(self, *a, **k): return Ctxm()
  def hook(n): return lambda step, **k: ev.append((n, step))
  def exists_(path):
    path = '/'.join(path) if isinstance(path, tuple) else path
    ev.append(('exists?', path))
    return exists(path)
  common = dict(
      input_pipeline=ns(get_datasets=lambda c_: dict(train=1, val=2), get_data_num_examples=lambda c_: 10),
      get_train_steps_and_epochs=lambda **k: (last, 1.), pjit_utils=ns(get_dataset_shape_dtype_struct=lambda d: dict(image=ns(sharding=1), labels=2, text=3)),
      create_checkpoint_manager=lambda **k: (ev.append(('manager',)), Mgr())[1], make_create_train_state_fn=lambda **k: None, create_flax_model=lambda **k: None,
      restore_or_create_train_state=lambda **k: (ev.append(('restore',)), (State(init), None))[1],
      get_dataset_iterator=lambda **k: iter([dict(image=1, labels=2, text=3)] * 10),
      create_tree_summarizer=lambda c_: None, create_profile_hook=lambda **k: (lambda s: None),
      create_progress_hook=lambda **k: Progress(), utils=ns(get_flops_and_seconds_per_device=lambda f: (None, None)),
      multihost_utils=ns(sync_devices=lambda s, *a, **k: ev.append(('sync', s))),
      make_train_cost_fn=lambda f: (lambda s: {}), ThreadPool=lambda: None,
      tf=ns(io=ns(gfile=ns(exists=exists_, isdir=exists_))), os=ns(path=ns(join=lambda *a: '/'.join(a))))
  jx = dict(profiler=ns(StepTraceAnnotation=lambda *a, **k: Ctxm()), tree_util=Over(m.jax.tree_util, tree_map=lambda f, t: None),
            process_index=lambda *a: p, process_count=lambda *a: pc)
  if contrastive:
    common.update(create_fewshot_hook=lambda **k: hook('fewshot'), create_retrieval_hook=lambda **k: hook('retrieval'), create_zeroshot_hook=lambda **k: hook('zeroshot'))
    jx['jit'] = lambda *a, **k: F()
  else:
    common.update(get_loss_fn=lambda **k: (1, 2, 3), create_evaluation_hook=lambda **k: (hook('evaluation'), {}), create_fewshot_hook=lambda **k: (hook('fewshot'), {}), pjit=ns(pjit=lambda *a, **k: F()))
  cfg = Cfg(dataset=Cfg(train=Cfg(batch_size=4)), model=Cfg(), optimizer=Cfg(), params_axis_resources=[], loss=Cfg(name='x'))
  with use(m, **common, jax=Over(m.jax, **jx)):
    m.train_and_evaluate(cfg, 'work', None, Writer())
  return ev


def training(mod, contrastive):
  m = loader.load(mod)
  ps, pc = processes()
  init, last = [(0, 0), (0, 1), (0, 3), (1, 3), (3, 3)][core.choose(5)]
  first, final = bool(core.choose(2)), bool(core.choose(2))
  def exists(path): return {'work/ckpt/0': first, f'work/ckpt/{last}': final if last else first}.get(path, False)
  t0, t1 = [loop_trace(m, p, pc, init, last, exists, contrastive) for p in ps]
  def coll(t): return [x for x in t if x[0] != 'exists?']
  obligation('the same barriers, steps, saves and evaluations in the same order in every process', z3.BoolVal(coll(t0) == coll(t1)))
  for t in (t0, t1):
    # a forced save is decided before the barrier that precedes it: nobody looks for the checkpoint while another writes it.
    for k, x in enumerate(t):
      if x[0] == 'save' and x[2] is True:
        b = max([j for j in range(k) if t[j][0] == 'sync'], default=-1)
        obligation('a forced save follows a barrier', z3.BoolVal(b >= 0))
        q = [j for j in range(k) if t[j][0] == 'exists?' and t[j][1] == f'work/ckpt/{x[1]}']
        obligation('whether to save is decided before that barrier', z3.BoolVal(bool(q) and q[-1] < b))
    obligation('training ends with a barrier after everything is saved', z3.BoolVal(t[-1][0] == 'sync' and ('wait',) in t and not any(x[0] in ('save', 'step') for x in t[len(t) - 1 - t[::-1].index(('wait',)):])))


@contract('C30', functions=[f'{TRAIN}.train_and_evaluate'], max_paths=200, bounded='five pairs of first and last step, at most 3 steps; any other process')
def training_barriers(): training(TRAIN, False)


@contract('C30', functions=[f'{CONTR}.train_and_evaluate'], max_paths=200, bounded='five pairs of first and last step, at most 3 steps; any other process')
def contrastive_training_barriers(): training(CONTR, True)
