"""C10: atomic checkpoint files; C11: complete steps (vmoe/checkpoints/base.py)."""
import z3
from vc import core, loader, loops
from vc.core import assume, obligation, fresh_int, fresh_bool, fresh_str, term, wrap, decide, SStr, term_str
from vc.engine import contract
from vc.loader import OVERRIDES

MOD = 'vmoe.checkpoints.base'
loops.enable(MOD)


# -- paths: os.path on symbolic strings (assumed contracts) ----------------------
def _reg(p, d, b):
  core.cur().__dict__.setdefault('paths', []).append((p, d, b))
  return p


def _parts(p):
  for q, d, b in core.cur().__dict__.get('paths', []):
    if q.t.eq(p.t): return d, b
  raise core.Unsupported(f'decomposition of path {p!r}')


import os as _os


def _dirname(p): return _parts(p)[0] if isinstance(p, SStr) else _os.path.dirname(p)
def _basename(p): return _parts(p)[1] if isinstance(p, SStr) else _os.path.basename(p)
def _split(p): return _parts(p) if isinstance(p, SStr) else _os.path.split(p)


def _bare(b):
  if isinstance(b, SStr) and not any(q.t.eq(b.t) for q, _, _ in core.cur().__dict__.get('paths', [])):
    if not decide(z3.Not(z3.Contains(b.t, z3.StringVal('/')))): raise core.Unsupported('join with a path')
    return _reg(b, '', b)
  return b


def _join(a, *bs):
  for b in bs:
    if isinstance(a, str) and a == '':
      a = _bare(b)
    elif isinstance(a, SStr) or isinstance(b, SStr):
      noslash = z3.Not(z3.Contains(term_str(b), z3.StringVal('/')))
      if not decide(noslash): raise core.Unsupported('join with a path')
      if isinstance(a, SStr) and decide(z3.Length(a.t) == 0): a = _bare(b)
      else: a = _reg(SStr(z3.Concat(term_str(a), z3.StringVal('/'), term_str(b))), a, b)
    else:
      a = _os.path.join(a, b)
  return a


for _n, _f in (('dirname', _dirname), ('basename', _basename), ('split', _split), ('join', _join)):
  OVERRIDES['os.path.' + _n] = _f


def fresh_path(name='file'):
  """D/B with D without trailing slash (or empty) and B a non-empty name."""
  b = fresh_str(name + '_base')
  assume(z3.And(z3.Length(b.t) > 0, z3.Not(z3.Contains(b.t, z3.StringVal('/')))))
  if core.choose(2) == 0:
    return _reg(b, '', b), '', b
  d = fresh_str(name + '_dir')
  assume(z3.Length(d.t) > 0)
  p = SStr(z3.Concat(d.t, z3.StringVal('/'), b.t))
  return _reg(p, d, b), d, b


# -- ghost file system ------------------------------------------------------------
class Data:
  """Complete serialised contents."""
  __vc_symbolic__ = True


class FsError(OSError):
  pass


class Fs:

  def __init__(self, dest, existed):
    self.dest, self.existed = dest, existed
    self.dest_state = 'old'          # 'old' (previous content or nothing) | 'new' | 'bad'
    self.temp = []                   # [path term, state] with state partial|complete
    self.ops = 0

  def same(self, p, q): return decide(term_str(p) == term_str(q))

  def crash_point(self, what):
    """The process may stop here: the destination is old or complete."""
    self.ops += 1
    obligation(f'crash after {what}: destination old or complete', z3.BoolVal(self.dest_state != 'bad'))

  def fail(self, what):
    if core.choose(2) == 1: raise FsError(what)

  def lookup(self, p):
    for t in self.temp:
      if self.same(t[0], p): return t
    return None

  # operations
  def exists(self, p):
    if self.same(p, self.dest): return self.existed
    return fresh_bool('exists')
  def isdir(self, p): return fresh_bool('isdir')

  def makedirs(self, p):
    self.fail('makedirs')
    self.crash_point('makedirs')

  def open(self, p, mode):
    if not isinstance(mode, str) or 'w' not in mode: raise core.Unsupported('open for reading or appending')
    if self.same(p, self.dest):
      self.dest_state = 'bad'
      self.crash_point('open of the destination')
    else:
      t = self.lookup(p)
      if t is None:
        self.temp.append([p, 'partial'])
        d, b = _parts(p)
        dd, bb = _parts(self.dest)
        obligation('temporary in the same directory', term_str(d) == term_str(dd))
        obligation('temporary name marked as unfinished', z3.PrefixOf(z3.StringVal('.tmp.'), term_str(b)))
        obligation('temporary name identifies the file', z3.Contains(term_str(b), term_str(bb)))
        obligation('temporary differs from destination', term_str(p) != term_str(self.dest))
      else: t[1] = 'partial'
      self.crash_point('open')

  def write(self, p, data):
    if self.same(p, self.dest): self.crash_point('write to the destination'); return
    t = self.lookup(p)
    if core.choose(2) == 1:
      t[1] = 'partial'
      raise FsError('write')
    if not isinstance(data, Data): raise core.Unsupported('writing something else than the serialised tree')
    t[1] = 'complete-unless-closed'
    self.crash_point('write')

  def close(self, p, failing):
    if self.same(p, self.dest):
      if not failing: self.dest_state = 'new' if self.dest_state == 'bad' else self.dest_state
      self.crash_point('close of the destination'); return
    t = self.lookup(p)
    if failing: return
    if core.choose(2) == 1:
      t[1] = 'partial'
      raise FsError('close')
    if t[1] == 'complete-unless-closed': t[1] = 'complete'
    self.crash_point('close')

  def rename(self, src, dst, overwrite=False):
    self.fail('rename')
    t = self.lookup(src)
    if not self.same(dst, self.dest):
      if t is not None: self.temp.append([dst, t[1]])
      self.crash_point('rename elsewhere'); return
    ov = core.as_z3bool(overwrite)
    obligation('destination replaced only when allowed', z3.Implies(z3.And(self.existed.t, z3.Not(core.cur().overwrite)), z3.Not(ov)))
    obligation('rename may replace when asked to', z3.Implies(core.cur().overwrite, z3.Or(ov, z3.Not(self.existed.t))))
    if decide(z3.And(self.existed.t, z3.Not(ov))): raise FsError('already exists')
    self.dest_state = 'new' if (t is not None and t[1] == 'complete') else 'bad'
    self.crash_point('rename')

  def copy(self, src, dst, overwrite=False):
    # contents arrive little by little: a stop in between leaves a part of them.
    self.fail('copy')
    t = self.lookup(src)
    if not self.same(dst, self.dest):
      self.temp.append([dst, t[1] if t is not None else 'partial'])
      self.crash_point('copy elsewhere'); return
    ov = core.as_z3bool(overwrite)
    if decide(z3.And(self.existed.t, z3.Not(ov))): raise FsError('already exists')
    self.dest_state = 'bad'
    self.crash_point('half of a copy to the destination')
    self.dest_state = 'new' if (t is not None and t[1] == 'complete') else 'bad'
    self.crash_point('copy')

  def remove(self, p):
    if self.same(p, self.dest): self.dest_state = 'bad'
    self.crash_point('remove')


class GFile:
  __vc_symbolic__ = True

  def __init__(self, path, mode='r'):
    self.p = path
    core.cur().fs.fail('open')
    core.cur().fs.open(path, mode)
  def __enter__(self): return self
  def __exit__(self, et, ev, tb):
    core.cur().fs.close(self.p, et is not None)
    return False
  def write(self, data): core.cur().fs.write(self.p, data)
  def flush(self): pass
  def close(self): core.cur().fs.close(self.p, False)


class gfile:
  GFile = GFile
  @staticmethod
  def exists(p): return core.cur().fs.exists(p)
  @staticmethod
  def isdir(p): return core.cur().fs.isdir(p)
  @staticmethod
  def makedirs(p): return core.cur().fs.makedirs(p)
  @staticmethod
  def rename(a, b, overwrite=False): return core.cur().fs.rename(a, b, overwrite)
  @staticmethod
  def copy(a, b, overwrite=False): return core.cur().fs.copy(a, b, overwrite)
  @staticmethod
  def remove(p): return core.cur().fs.remove(p)
  @staticmethod
  def glob(p): return core.cur().listing(p)


def base():
  m = loader.load(MOD)
  m.gfile = gfile
  return m


class Serial:
  """serialization: to_bytes returns the complete contents, or raises."""
  @staticmethod
  def to_bytes(tree):
    if core.choose(2) == 1: raise ValueError('cannot serialise')
    d = Data(); d.tree = tree
    return d


@contract('C10', functions=['vmoe.checkpoints.base.save_checkpoint'], max_paths=2000)
def save_is_atomic():
  """Every path, every crash point between two file-system operations and every
  failure of an operation, any path, previous content present or not."""
  m = base()
  c = core.cur()
  dest, d, b = fresh_path()
  c.fs = Fs(dest, fresh_bool('dest_existed'))
  ov = fresh_bool('overwrite')
  c.overwrite = ov.t
  core.assumption('assumed: gfile.rename is atomic (the destination is never absent or partial in between) and refuses to replace without overwrite; GFile contents are complete once closed without error')
  old = m.serialization
  m.serialization = Serial
  tree = object()
  try:
    r = m.save_checkpoint(dest, tree, overwrite=ov, makedirs=fresh_bool('makedirs'))
  except (FsError, ValueError):
    obligation('failed save leaves the destination as it was', z3.BoolVal(c.fs.dest_state == 'old' or c.fs.dest_state == 'new'))
    return
  finally:
    m.serialization = old
  obligation('successful save leaves the complete contents', z3.BoolVal(c.fs.dest_state == 'new'))
  obligation('returns the destination', term_str(r) == term_str(dest))


class Pool:
  """ThreadPool: calls the function on every item (in any order, at some time)."""
  def apply_async(self, f, args=(), kwds=None): return f(*args, **(kwds or {}))
  def map_async(self, f, items, chunksize=None): return [f(x) for x in items]
  def map(self, f, items, chunksize=None): return [f(x) for x in items]
  def starmap_async(self, f, items, chunksize=None): return [f(*x) for x in items]


@contract('C10', functions=['vmoe.checkpoints.base.save_checkpoint_async', 'vmoe.checkpoints.base.save_multiple_checkpoints_async'],
          bounded='at most 3 files per call')
def async_saves_forward_everything():
  m = base()
  calls = []
  old = m.save_checkpoint
  def save(filepath, tree, *, overwrite=True, makedirs=True):
    calls.append((filepath, tree, overwrite, makedirs)); return filepath
  m.save_checkpoint = save
  ov, mk = fresh_bool('overwrite'), fresh_bool('makedirs')
  try:
    if core.choose(2) == 0:
      t = object()
      m.save_checkpoint_async('p', t, overwrite=ov, makedirs=mk, thread_pool=Pool())
      want = [('p', t)]
    else:
      n = core.choose(4)
      d = {f'f{i}': object() for i in range(n)}
      m.save_multiple_checkpoints_async(d, overwrite=ov, makedirs=mk, thread_pool=Pool())
      want = list(d.items())
  finally:
    m.save_checkpoint = old
  obligation('every file saved once with its own contents', z3.BoolVal([(a, b) for a, b, _, _ in calls] == want))
  for _, _, o, k in calls:
    obligation('overwrite forwarded', core.as_z3bool(o) == ov.t)
    obligation('makedirs forwarded', core.as_z3bool(k) == mk.t)


# -- C11 ---------------------------------------------------------------------------
class FPath(str):
  """A listed file: a string whose match fields are ghost values."""
  __vc_symbolic__ = True


class Match:
  def __init__(self, f): self.f = f
  def group(self, i=0):
    if i == 1: return self.f.stem
    if i == 2: return StepText(self.f.step) if self.f.step is not None else None
    if i == 3: return self.f.suffix
    raise core.Unsupported('match group')


class StepText:
  """'_<step>'"""
  __vc_symbolic__ = True
  def __init__(self, s, cut=0): self.s, self.cut = s, cut
  def __getitem__(self, k):
    if isinstance(k, slice) and k.start == 1 and k.stop is None: return StepText(self.s, 1)
    raise core.Unsupported('slice of the step text')
  def lstrip(self, c): return StepText(self.s, 1) if c == '_' else self
  def removeprefix(self, c): return self.lstrip(c)
  def __vc_int__(self):
    return self.s


class Regex:
  """CHECKPOINT_REGEX with the contract: group 2 is the step, group 3 the suffix kind."""
  @staticmethod
  def fullmatch(f): return Match(f)
  match = fullmatch


_old_int = loader.c_int


def c_int(x=0, *a):
  if isinstance(x, StepText): return x.__vc_int__()
  return _old_int(x, *a)


loader.BUILTINS['int'] = loader._mk(int, c_int)


@contract('C11', functions=['vmoe.checkpoints.base.iterate_complete_steps_for_prefix', 'vmoe.checkpoints.base.find_latest_complete_checkpoint_for_prefix'],
          max_paths=6000, budget=220.0, bounded='directory with at most 2 finished and 1 temporary file (or 3 finished); any step numbers, suffixes out of {none, .index, .data}')
def complete_steps():
  m = base()
  c = core.cur()
  c.sym_hash = True
  nf, nt = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (0, 1)][core.choose(6)]
  kinds = [None, '.index', '.data']
  def mk(stem, i):
    f = FPath(f'{stem}-{i}')
    f.stem, f.step = stem, fresh_int('step', 0)
    f.suffix = kinds[1 + core.choose(2)] if nf + nt >= 2 else kinds[core.choose(3)]
    return f
  fin = [mk('/d/ckpt', i) for i in range(nf)]
  tmp = [mk('/d/.tmp.ckpt', 10 + i) for i in range(nt)]
  def listing(pattern):
    if pattern == '/d/ckpt*': return list(fin)
    if pattern == '/d/.tmp.ckpt*': return list(tmp)
    raise core.Unsupported(f'glob {pattern}')
  c.listing = listing
  core.assumption('assumed: CHECKPOINT_REGEX groups 2 and 3 are the step and the kind of a checkpoint file name; gfile.glob lists the files with the prefix')
  req = [None, ('.index',), ('.index', '.data')][core.choose(3)]
  if req is None and nf + nt < 2 or req is not None: pass
  dec = core.choose(2) == 0
  old = m.CHECKPOINT_REGEX
  m.CHECKPOINT_REGEX = Regex
  try:
    got = list(m.iterate_complete_steps_for_prefix('/d/ckpt', suffixes=req, decreasing=dec))
  finally:
    m.CHECKPOINT_REGEX = old
  want = set(req) if req else {None}
  x = fresh_int('x', 0)
  have = {k: z3.Or(z3.BoolVal(False), *[f.step.t == x.t for f in fin if f.suffix == k]) for k in kinds}
  complete = z3.And(*[have[k] for k in want], *[f.step.t != x.t for f in tmp])
  obligation('reported-exactly-when-complete', z3.Or(z3.BoolVal(False), *[term(g) == x.t for g in got]) == complete)
  for a, b in zip(got, got[1:]):
    obligation('each-once-in-numeric-order', term(a) > term(b) if dec else term(a) < term(b))
