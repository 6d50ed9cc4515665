"""C14: the logical device mesh (vmoe/partitioning.py)."""
import types as _types
import numpy as np
import z3
from vc import core, loader, loops, tensor as T
from vc.core import assume, obligation, fresh_int, fresh_bool, term, wrap, decide
from vc.engine import contract

MOD = 'vmoe.partitioning'


class GMesh:
  def __init__(self, devices, axis_names): self.devices, self.axis_names = devices, axis_names


def part():
  m = loader.load(MOD)
  m.Mesh = GMesh
  return m


def hw_mesh(axes):
  """Hardware mesh whose element is the device Dev(digits...)."""
  n = sum(len(a) for a in axes)
  dev = z3.Function(core.cur().fresh('Dev'), *([z3.IntSort()] * (n + 1)))
  return dev, T.SArr(axes, lambda idx: dev(*[d for i in idx for d in i]), 'object')


def lex_le(p, q):
  return z3.Or(T.lex_lt(p, q), T.eq_digits(p, q)) if p else z3.BoolVal(True)


def logical(out, dev, P, R):
  obligation('axis names', z3.BoolVal(tuple(out.axis_names) == ('expert', 'replica')))
  d = out.devices
  obligation('two axes', z3.BoolVal(len(d.axes) == 2))
  obligation('number of partitions', T.dim_term(d.shape[0]) == T.dim_term(P))
  obligation('number of replicas', T.dim_term(d.shape[1]) == T.dim_term(R))
  return d


def coords(d, dev, u, v):
  t = d.fn((tuple(u), tuple(v)))
  if not z3.is_app(t) or not t.decl().eq(dev): raise core.Unsupported('element of the logical mesh is not a hardware device term')
  return [t.arg(i) for i in range(t.num_args())]


def bijection(d, dev, hw_atoms):
  """Distinct logical positions hold distinct devices (equal sizes: hence each once)."""
  u, v = T.ivars_for(d.axes[0], 'u'), T.ivars_for(d.axes[1], 'v')
  u2, v2 = T.ivars_for(d.axes[0], 'u2'), T.ivars_for(d.axes[1], 'v2')
  a, b = coords(d, dev, u, v), coords(d, dev, u2, v2)
  obligation('device exists', T.in_range(a, hw_atoms))
  obligation('no device twice', z3.Implies(T.eq_digits(a, b), z3.And(T.eq_digits(u, u2), T.eq_digits(v, v2))))
  n = T.dim_term(T.mkdim([x for ax in d.axes for x in ax])), T.dim_term(T.mkdim(hw_atoms))
  obligation('as many positions as devices', n[0] == n[1])
  return u, v, a


@contract('C14', functions=[f'{MOD}.get_logical_mesh_default'])
def default_arrangement():
  """Any extents; 2 (CPU/GPU) and 4 (TPU) hardware axes."""
  m = part()
  nd = [2, 4][core.choose(2)]
  ps = [T.new_dim('p') for _ in range(nd)]
  rs = [T.new_dim('r') for _ in range(nd)]
  axes = [p.atoms + r.atoms for p, r in zip(ps, rs)]
  dev, hw = hw_mesh(axes)
  out = m.get_logical_mesh_default(tuple(ps), tuple(rs), hw)
  P, R = T.mkdim([a for p in ps for a in p.atoms]), T.mkdim([a for r in rs for a in r.atoms])
  d = logical(out, dev, P, R)
  u, v, a = bijection(d, dev, [x for ax in axes for x in ax])
  # the partition number is the row-major number of the axis-wise partitions.
  if len(u) == nd and len(v) == nd:
    obligation('row-major partitions and replicas', z3.And(*[z3.And(a[2 * k] == u[k], a[2 * k + 1] == v[k]) for k in range(nd)]))


def local_axes(nd):
  """Per axis: partitions = k * local, or replicas = k * local (and partitions not)."""
  ps, rs, ls, axes, local = [], [], [], [], []
  for k in range(nd):
    l = T.new_dim('l')
    if core.choose(2) == 0:
      ph, r = T.new_dim('ph'), T.new_dim('r')
      ps.append(ph * l); rs.append(r); ls.append(l)
      axes.append(ph.atoms + r.atoms + l.atoms)
    else:
      p, rh = T.new_dim('p'), T.new_dim('rh')
      assume(core.as_z3bool((p % l) != 0))
      ps.append(p); rs.append(rh * l); ls.append(l)
      axes.append(p.atoms + rh.atoms + l.atoms)
    local += [False, False, True]
  return ps, rs, ls, axes, local


def tiled(nd):
  m = part()
  core.cur().linear_decide = True
  ps, rs, ls, axes, local = local_axes(nd)
  dev, hw = hw_mesh(axes)
  out = m.get_logical_mesh_tile_by_process(tuple(ps), tuple(rs), hw, tuple(ls))
  P, R = T.mkdim([a for p in ps for a in p.atoms]), T.mkdim([a for r in rs for a in r.atoms])
  d = logical(out, dev, P, R)
  bijection(d, dev, [x for ax in axes for x in ax])
  blocks(d, dev, local)


def blocks(d, dev, local):
  """Between two positions of a process lie only positions of that process."""
  u1, u2, u3 = [T.ivars_for(d.axes[0], 'a') for _ in range(3)]
  v1, v2, v3 = [T.ivars_for(d.axes[1], 'b') for _ in range(3)]
  def proc(u, v): return [x for x, l in zip(coords(d, dev, u, v), local) if not l]
  between = z3.And(z3.Or(z3.And(lex_le(u1, u3), lex_le(u3, u2)), z3.And(lex_le(u2, u3), lex_le(u3, u1))),
                   z3.Or(z3.And(lex_le(v1, v3), lex_le(v3, v2)), z3.And(lex_le(v2, v3), lex_le(v3, v1))))
  obligation('process owns a contiguous block', z3.Implies(z3.And(T.eq_digits(proc(u1, v1), proc(u2, v2)), between),
                                                            T.eq_digits(proc(u1, v1), proc(u3, v3))))


@contract('C14', functions=[f'{MOD}.get_logical_mesh_tile_by_process'], max_paths=100)
def tiled_by_process_2_axes():
  tiled(2)


@contract('C14', functions=[f'{MOD}.get_logical_mesh_tile_by_process'], max_paths=200)
def tiled_by_process_4_axes():
  tiled(4)


@contract('C14', functions=[f'{MOD}.get_logical_mesh'], max_paths=400)
def arrangement_chosen():
  """get_logical_mesh against the contracts of its callees."""
  m = part()
  core.cur().linear_decide = True
  nd = [2, 4][core.choose(2)]
  ps = [T.new_dim('p') for _ in range(nd)]
  rs = [T.new_dim('r') for _ in range(nd)]
  axes = [p.atoms + r.atoms for p, r in zip(ps, rs)]
  dev, hw = hw_mesh(axes)
  ls = [T.new_dim('l') for _ in range(nd)]
  seen = {}
  old = {k: getattr(m, k) for k in ('get_logical_mesh_default', 'processes_have_contiguous_device_slices', 'get_hardware_mesh_local_shape', 'get_logical_mesh_tile_by_process')}
  def split(p, r, h, tag):
    obligation(f'{tag}: one entry per axis', z3.BoolVal(len(p) == len(r) == h.ndim == nd))
    for a, b, s in zip(p, r, h.shape): obligation(f'{tag}: precondition: extent = partitions * replicas', T.dim_term(a) * T.dim_term(b) == T.dim_term(s))
    obligation(f'{tag}: all partitions', z3.BoolVal(sorted(x.t.get_id() for x in p) == sorted(x.t.get_id() for x in ps)))
  def default(p, r, h):
    split(p, r, h, 'default')
    seen['default'] = GMesh(object(), ('expert', 'replica')); return seen['default']
  def contig(d):
    obligation('contiguity of the default arrangement is tested', z3.BoolVal(d is seen['default'].devices))
    return seen.setdefault('contig', fresh_bool('contiguous'))
  def tile(p, r, h, l):
    split(p, r, h, 'tiled')
    obligation('tiled: local extents in the order of the axes', z3.BoolVal(len(l) == nd and [x.t.get_id() for x in l] ==
                                                                  [ls[[q.t.get_id() for q in ps].index(x.t.get_id())].t.get_id() for x in p]))
    seen['tile'] = GMesh(object(), ('expert', 'replica')); return seen['tile']
  try:
    m.get_logical_mesh_default, m.processes_have_contiguous_device_slices = default, contig
    m.get_hardware_mesh_local_shape, m.get_logical_mesh_tile_by_process = (lambda *a: tuple(ls)), tile
    out = m.get_logical_mesh(tuple(ps), hw)
  finally:
    for k, v in old.items(): setattr(m, k, v)
  c = seen['contig'].t
  obligation('default arrangement when contiguous', z3.Implies(c, z3.BoolVal(out is seen.get('default'))))
  obligation('tiled arrangement otherwise', z3.Implies(z3.Not(c), z3.BoolVal(out is seen.get('tile', 0))))


def factorisation(nd):
  m = part()
  core.cur().linear_decide = True
  n = fresh_int('num_partitions', 1)
  s = [fresh_int('extent', 1) for _ in range(nd)]
  hw = _types.SimpleNamespace(shape=tuple(s), ndim=nd)
  seen = []
  old = m.get_logical_mesh
  m.get_logical_mesh = lambda p, h: seen.append((p, h)) or 'mesh'
  try:
    r = (m.get_auto_logical_mesh_other if nd == 2 else m.get_auto_logical_mesh_tpu)(n, hw)
  except ValueError:
    return
  finally:
    m.get_logical_mesh = old
  obligation('mesh of these partitions is returned', z3.BoolVal(r == 'mesh' and len(seen) == 1 and seen[0][1] is hw and len(seen[0][0]) == nd))
  prod = 1
  for p, x in zip(seen[0][0], s):
    prod = prod * p
    obligation('precondition: partitions divide the extent', z3.And(term(p) >= 1, core.divides(p, x)))
  obligation('as many partitions as requested', term(prod) == n.t)


@contract('C14', functions=[f'{MOD}.get_auto_logical_mesh_other'], max_paths=200)
def factorisation_other(): factorisation(2)


@contract('C14', functions=[f'{MOD}.get_auto_logical_mesh_tpu'], max_paths=800)
def factorisation_tpu(): factorisation(4)


class GDev:
  def __init__(self, p): self.process_index = p


@contract('C14', functions=[f'{MOD}.process_has_contiguous_device_slice'],
          bounded='meshes of up to 6 devices in 4 shapes, any process indices', max_paths=400)
def contiguity_test():
  m = part()
  shape = [(1, 3), (3, 1), (2, 2), (2, 3)][core.choose(4)]
  k = fresh_int('process')
  arr = np.empty(shape, object)
  own = {}
  for c in np.ndindex(*shape):
    own[c] = fresh_bool('mine')
    arr[c] = GDev(_Proc(own[c], k))
  assume(z3.Or(*[b.t for b in own.values()]))
  got = m.process_has_contiguous_device_slice(arr, k)
  def between(a, b, c): return all(min(x, y) <= z <= max(x, y) for x, y, z in zip(a, b, c))
  hull = z3.BoolVal(True)
  for c in own:
    # c lies in the bounding box of the owned devices.
    inbox = z3.And(*[z3.And(z3.Or(*[own[a].t for a in own if a[d] <= c[d]]), z3.Or(*[own[a].t for a in own if a[d] >= c[d]])) for d in range(2)])
    hull = z3.And(hull, z3.Implies(inbox, own[c].t))
  obligation('contiguous exactly when the bounding box is owned', core.as_z3bool(bool(got)) == hull)


class _Proc:
  """A process index that equals k exactly when `mine`."""
  def __init__(self, mine, k): self.mine, self.k = mine, k
  def __eq__(self, o): return self.mine if o is self.k else NotImplemented
  __hash__ = None
