"""C29: preprocessing operations (vmoe/data/pp_ops.py).

TensorFlow kernels are specified by what they return (assumed contracts below); the
operations of the pipeline are the real code and are proved against their own contracts.
"""
import types as _types
import z3
from vc import core, loader
from vc.core import assume, obligation, fresh_int, fresh_real, fresh_bool, term, wrap, decide
from vc.engine import contract
from contracts.train_step import use

MOD = 'vmoe.data.pp_ops'
ns = _types.SimpleNamespace
R = z3.RealSort()
I = z3.IntSort()


def rl(x): return core.to_real(core.num(term(x)))
def it(x): return core.num(term(x)) if core.is_sym(x) else (x if z3.is_expr(x) else z3.IntVal(int(x)))


class DT:
  def __init__(self, name): self.name = name
  def __repr__(self): return self.name
  def __eq__(self, o): return isinstance(o, DT) and o.name == self.name or isinstance(o, str) and o == self.name
  def __hash__(self): return hash(self.name)


FL = {'float32', 'float64', 'bfloat16'}


class TShape:
  __vc_symbolic__ = True
  def __init__(self, dims): self.dims, self.rank = dims, len(dims)
  ndims = property(lambda s: s.rank)
  def __len__(self): return self.rank
  def __getitem__(self, k): return self.dims[k]
  def __iter__(self): return iter(self.dims)
  def as_list(self): return list(self.dims)


class Ten:
  """Tensor with concrete rank, symbolic sizes; elements are reals."""
  __vc_symbolic__ = True

  def __init__(self, dims, fn, dtype, op=None):
    self.dims, self.fn, self.dtype, self.op = list(dims), fn, dtype if isinstance(dtype, DT) else DT(dtype), op
  @property
  def shape(self): return TShape(self.dims)
  ndim = property(lambda s: len(s.dims))
  def __len__(self): raise core.Unsupported('len of a tensor')
  def __iter__(self): raise core.Unsupported('iteration over a tensor')
  def __bool__(self):
    if self.dims: raise core.Unsupported('truth of a tensor')
    return decide(self.fn([]) != 0)
  def get_shape(self): return self.shape
  def set_shape(self, s):
    s = list(s)
    if len(s) != len(self.dims): raise ValueError('incompatible rank')
    for a, b in zip(s, self.dims):
      if a is not None: obligation('declared static shape is the actual one', it(a) == it(b))
  def __getitem__(self, key):
    key = key if isinstance(key, tuple) else (key,)
    dims, plan, k = [], [], 0
    for a in key:
      if a is None: dims.append(1)
      elif isinstance(a, slice) and a == slice(None): dims.append(self.dims[k]); plan.append(len(dims) - 1); k += 1
      elif isinstance(a, int): plan.append(('at', a)); k += 1
      else: raise core.Unsupported('tensor index')
    while k < len(self.dims): dims.append(self.dims[k]); plan.append(len(dims) - 1); k += 1
    return Ten(dims, lambda i: self.fn([z3.IntVal(p[1]) if isinstance(p, tuple) else i[p] for p in plan]), self.dtype, ('index', self, key))
  def _bin(self, o, f, rev=False):
    if isinstance(o, Ten):
      a, b = (self, o) if len(self.dims) >= len(o.dims) else (o, self)
      off = len(a.dims) - len(b.dims)
      for x, y in zip(a.dims[off:], b.dims):
        if not decide(it(x) == it(y)): raise core.Unsupported('broadcasting of tensors')
      if self.dtype != o.dtype: raise TypeError('dtypes differ')
      g = (lambda i: f(self.fn(i), o.fn(i[off:]))) if a is self else (lambda i: f(self.fn(i[off:]), o.fn(i)))
      out = a.dims
    else:
      c = rl(o)
      g = lambda i: f(self.fn(i), c)
      out = self.dims
    if rev:
      h = g
      g = (lambda i: f(rl(o), self.fn(i)))
    return Ten(out, g, self.dtype)
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
  def __truediv__(self, o): return self._bin(o, lambda a, b: core.zdiv(a, b) if hasattr(core, 'zdiv') else a / b)
  def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, True)
  def __neg__(self): return Ten(self.dims, lambda i: -self.fn(i), self.dtype)


class Bytes:
  """An encoded image."""
  __vc_symbolic__ = True
  def __init__(self): self.h, self.w = fresh_int('H', 1), fresh_int('W', 1)


def tok(*a): return ns(tok=a)


def _shape(x, **k):
  if not isinstance(x, Ten): raise core.Unsupported('tf.shape')
  return [d if core.is_sym(d) or isinstance(d, int) else wrap(d) for d in x.dims]


def _crop(image, dy, dx, h, w):
  H, W, C = image.dims
  dy, dx, h, w = map(it, (dy, dx, h, w))
  obligation('crop window inside the image', z3.And(dy >= 0, dx >= 0, dy + h <= it(H), dx + w <= it(W)))
  return Ten([wrap(h), wrap(w), C], lambda i: image.fn([i[0] + dy, i[1] + dx, i[2]]), image.dtype)


def _slice(x, begin, size):
  b, s = [it(v) for v in begin], list(size)
  dims = []
  for bb, ss, d in zip(b, s, x.dims):
    n = it(d) - bb if isinstance(ss, int) and ss == -1 else it(ss)
    obligation('slice inside the image', z3.And(bb >= 0, n >= 0, bb + n <= it(d)))
    dims.append(wrap(z3.simplify(n)))
  return Ten(dims, lambda i: x.fn([p + q for p, q in zip(i, b)]), x.dtype, ('slice', x, b, dims))


_cast_fn = {}


def _cast(x, dtype, **k):
  dtype = dtype if isinstance(dtype, DT) else DT(getattr(dtype, 'name', str(dtype)))
  if isinstance(x, Ten):
    if x.dtype == dtype: return x
    if dtype.name in FL or dtype == 'bool' and x.dtype == 'bool': return Ten(x.dims, x.fn, dtype, ('cast', x))
    if dtype == 'bool': return Ten(x.dims, lambda i: z3.If(x.fn(i) != 0, z3.RealVal(1), z3.RealVal(0)), dtype, ('cast', x))
    tr = lambda v: z3.If(v >= 0, z3.ToReal(z3.ToInt(v)), -z3.ToReal(z3.ToInt(-v)))
    return Ten(x.dims, lambda i: tr(x.fn(i)), dtype, ('cast', x))
  if dtype.name in FL: return wrap(rl(x)) if core.is_sym(x) else float(x)
  if dtype == 'bool':
    return x if core.is_sym(x) and z3.is_bool(term(x)) else (wrap(rl(x) != 0) if core.is_sym(x) else bool(x))
  v = rl(x)
  if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return wrap(v.arg(0))
  return wrap(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def _round(x):
  if isinstance(x, Ten): raise core.Unsupported('round of a tensor')
  v = rl(x)
  r = fresh_int('rounded')
  h = fresh_int('half')
  assume(z3.And(2 * z3.ToReal(r.t) - 1 <= 2 * v, 2 * v <= 2 * z3.ToReal(r.t) + 1))
  assume(z3.Implies(z3.Or(2 * v == 2 * z3.ToReal(r.t) + 1, 2 * v == 2 * z3.ToReal(r.t) - 1), r.t == 2 * h.t))
  return wrap(z3.ToReal(r.t))


def _minimum(a, b):
  if isinstance(a, Ten) or isinstance(b, Ten): raise core.Unsupported('minimum of tensors')
  return a if decide(rl(a) <= rl(b)) else b


def _maximum(a, b):
  if isinstance(a, Ten) or isinstance(b, Ten): raise core.Unsupported('maximum of tensors')
  return a if decide(rl(a) >= rl(b)) else b


def _constant(v, dtype=None, **k):
  if isinstance(v, (list, tuple)):
    xs = [rl(e) for e in v]
    def fn(i):
      out = xs[-1]
      for j in range(len(xs) - 2, -1, -1): out = z3.If(i[0] == j, xs[j], out)
      return out
    return Ten([len(xs)], fn, dtype or 'float32')
  return Ten([], lambda i, r=rl(v): r, dtype or 'float32')


def _clip(x, lo, hi):
  a, b = rl(lo), rl(hi)
  return Ten(x.dims, lambda i: z3.If(x.fn(i) < a, a, z3.If(x.fn(i) > b, b, x.fn(i))), x.dtype)


def _resize(kind):
  def f(image, size, method='bilinear', **kw):
    if kw: raise core.Unsupported('resize options')
    if not isinstance(image, Ten): raise core.Unsupported('resize')
    h, w = list(size)
    obligation('resized to at least one pixel', z3.And(it(h) > 0, it(w) > 0))
    dims = image.dims[:-3] + [h, w] + image.dims[-1:]
    g = z3.Function(core.cur().fresh('Resized'), *[I] * len(dims), R)
    method = getattr(method, 'value', method) if kind == 'resize' else 'area'
    return Ten(dims, lambda i: g(*i), image.dtype if method == 'nearest' else 'float32', ('resize', image, (h, w), method))
  return f


def _box(image_size, boxes, **kw):
  """A box inside the image; the sampler is asked for what the caller said."""
  core.cur().box = kw
  if not (isinstance(boxes, ns) and boxes.tok[0] == 'zeros' and list(boxes.tok[1])[-1] == 4): raise core.Unsupported('bounding boxes')
  obligation('samples from the whole image when there are no boxes', z3.BoolVal(kw.get('use_image_if_no_bounding_boxes') is True))
  H, W, C = list(image_size)
  y, x, h, w = fresh_int('y', 0), fresh_int('x', 0), fresh_int('h', 1), fresh_int('w', 1)
  assume(z3.And(y.t + h.t <= it(H), x.t + w.t <= it(W)))
  core.cur().at = (y.t, x.t, h.t, w.t)
  return [y, x, 0], [h, w, -1], tok('bbox')


def _flip(image):
  W = it(image.dims[1])
  if core.choose(2) == 0: return image
  return Ten(image.dims, lambda i: image.fn([i[0], W - 1 - i[1], i[2]]), image.dtype)


def _scatter_nd(idx, upd, shape):
  """Sum of the updates at each index; indices out of range are refused."""
  n, one = idx.dims
  if one != 1 or len(upd.dims) != 1: raise core.Unsupported('scatter_nd')
  (depth,) = list(shape)
  j, v = z3.Int(core.cur().fresh('j')), z3.Int(core.cur().fresh('v'))
  obligation('as many updates as indices', it(n) == it(upd.dims[0]))
  S = z3.Function(core.cur().fresh('Scatter'), I, R)      # sum over j with label j == v of the updates
  lab = lambda q: idx.fn([q, z3.IntVal(0)])
  hit = lambda q, k: z3.And(q >= 0, q < it(n), lab(q) == z3.ToReal(k))
  W = z3.Function(core.cur().fresh('Who'), I, I)
  q = fresh_int('some_update', 0, n if core.is_sym(n) else wrap(z3.IntVal(n)))
  u = z3.simplify(upd.fn([q.t]))
  if not (z3.is_rational_value(u) and u.as_fraction() >= 0): raise core.Unsupported('scatter_nd of other updates')
  # for a constant u >= 0: the sum at v is u times the number of hits
  cnt = z3.Function(core.cur().fresh('Hits'), I, I)
  assume(z3.ForAll([v], z3.And(cnt(v) >= 0, S(v) == u * z3.ToReal(cnt(v)), z3.Implies(cnt(v) > 0, hit(W(v), v))), patterns=[S(v)]))
  core.cur().hits = lambda k: cnt(k) > 0
  core.cur().lemma = lambda q, k: z3.Implies(hit(q, k), cnt(k) > 0)
  return Ten([depth], lambda i: S(i[0]), upd.dtype)


def _one_hot(label, depth, on_value=1.0, off_value=0.0, **kw):
  if kw: raise core.Unsupported('one_hot options')
  on, off = rl(on_value), rl(off_value)
  return Ten(label.dims + [depth], lambda i: z3.If(label.fn(i[:-1]) == z3.ToReal(i[-1]), on, off), 'float32')


def _reshape(x, shape):
  return Ten(list(shape), None, x.dtype, ('reshape', x, shape))


def _size(x):
  n = wrap(z3.IntVal(1))
  for d in x.dims: n = wrap(it(n) * it(d)) if not (isinstance(n, int)) else d
  return n


def _and(a, b): return wrap(z3.And(core.as_z3bool(a), core.as_z3bool(b)))


def tf_stub():
  image = ns(crop_to_bounding_box=_crop, random_flip_left_right=_flip, sample_distorted_bounding_box=_box,
             resize_area=_resize('area'), resize=_resize('resize'),
             extract_jpeg_shape=lambda b: [b.h, b.w, 3],
             decode_and_crop_jpeg=lambda b, window, channels=0: tok('jpeg', b, window, channels))
  math = ns(logical_and=_and, minimum=_minimum, maximum=_maximum)
  return ns(shape=_shape, slice=_slice, cast=_cast, round=_round, minimum=_minimum, maximum=_maximum, constant=_constant, clip_by_value=_clip,
            zeros=lambda s, dtype=None: tok('zeros', s), ones=lambda n, dtype='float32': Ten([n], lambda i: z3.RealVal(1), dtype),
            ones_like=lambda x, dtype=None: Ten(x.dims, lambda i: z3.RealVal(1), dtype or x.dtype),
            scatter_nd=_scatter_nd, one_hot=_one_hot, reshape=_reshape, size=_size, logical_and=_and, math=math, image=image,
            unstack=lambda v: list(v), stack=lambda v: list(v),
            io=ns(decode_image=lambda b, channels=None, expand_animations=True: tok('decoded', b, channels, expand_animations)),
            float32=DT('float32'), int32=DT('int32'), uint8=DT('uint8'), bool=DT('bool'), int64=DT('int64'))


def ops():
  m = loader.load(MOD)
  tf = tf_stub()
  core.assumption('assumed: TensorFlow kernels (crop, slice, resize, scatter_nd, one_hot, clip, cast, round, random flip, box sampling, image decoding) return what their documentation says; arithmetic is real')
  return m, use(m, tf=tf, tf2=tf)


def image(dtype='uint8', h=None, w=None, c=None):
  c = c or 3
  f = z3.Function(core.cur().fresh('Pixel'), I, I, I, R)
  return Ten([h or fresh_int('H', 1), w or fresh_int('W', 1), c], lambda i: f(*i), dtype)


def keys(call):
  """Runs an operation of one input and one output with the given key options; returns (result, input) and
  checks that only the output key changes."""
  kw, src, dst = [({}, None, None), (dict(key='k'), 'k', 'k'), (dict(inkey='a'), 'a', None), (dict(outkey='b'), None, 'b'), (dict(inkey='a', outkey='b'), 'a', 'b')][core.choose(5)]
  return kw, src, dst


def run_op(make, x, default, *args, **kwargs):
  kw, src, dst = keys(None)
  src, dst = src or default, dst or default
  other = object()
  data = {'other': other, 'image': 'I', 'labels': 'L', 'k': 'K', 'a': 'A', 'b': 'B'}
  data[src] = x
  before = dict(data)
  out = make(*args, **kwargs, **kw)(data)
  obligation('no key is lost or invented', z3.BoolVal(set(out) == set(before) | {dst}))
  obligation('all other values are kept', z3.BoolVal(all(out[k] is before[k] for k in before if k != dst)))
  return out[dst]


def pix(x, n=None):
  i = [fresh_int(f'p{k}', 0) for k in range(len(x.dims))]
  for v, d in zip(i, x.dims): assume(v.t < it(d))
  return [v.t for v in i]


@contract('C29', functions=[f'{MOD}.central_crop', f'{MOD}.InKeyOutKey.__call__'])
def central_crop_is_centred():
  """Every image and crop not larger than it."""
  m, u = ops()
  x = image()
  h, w = fresh_int('crop_h', 1), fresh_int('crop_w', 1)
  one = core.choose(2)
  if one: w = h
  assume(z3.And(h.t <= x.dims[0].t, w.t <= x.dims[1].t))
  with u: r = run_op(m.central_crop, x, 'image', (h if one == 1 else [h, w]) if not one else (h, h))
  H, W = x.dims[0].t, x.dims[1].t
  obligation('requested size', z3.And(it(r.dims[0]) == h.t, it(r.dims[1]) == w.t, it(r.dims[2]) == 3))
  p = pix(r)
  # as many pixels cut on both sides, up to one.
  dy, dx = z3.Int(core.cur().fresh('dy')), z3.Int(core.cur().fresh('dx'))
  assume(z3.And(2 * dy <= H - h.t, H - h.t < 2 * dy + 2, 2 * dx <= W - w.t, W - w.t < 2 * dx + 2))
  obligation('pixels of the centre', r.fn(p) == x.fn([p[0] + dy, p[1] + dx, p[2]]))
  obligation('type kept', z3.BoolVal(r.dtype == x.dtype))


@contract('C29', functions=[f'{MOD}.central_crop'], bounded='six crop sizes given as a plain integer')
def central_crop_of_an_integer():
  m, u = ops()
  n = [1, 2, 3, 7, 32, 224][core.choose(6)]
  x = image()
  assume(z3.And(x.dims[0].t >= n, x.dims[1].t >= n))
  with u: r = m.central_crop(n)({'image': x})['image']
  obligation('square of the requested size', z3.And(it(r.dims[0]) == n, it(r.dims[1]) == n))


@contract('C29', functions=[f'{MOD}.resize'])
def resize_size_and_type():
  m, u = ops()
  dt = ['uint8', 'float32', 'int32'][core.choose(3)]
  x = image(dt)
  form = core.choose(3)
  h, w = fresh_int('new_h', 1), fresh_int('new_w', 1)
  arg = [7, [h, w], (h, w)][form]
  meth = [None, 'nearest', 'area'][core.choose(3)]
  with u: r = run_op(m.resize, x, 'image', arg, *([meth] if meth else []))
  hh, ww = (z3.IntVal(7), z3.IntVal(7)) if form == 0 else (h.t, w.t)
  obligation('requested size', z3.And(z3.BoolVal(len(r.dims) == 3), it(r.dims[0]) == hh, it(r.dims[1]) == ww, it(r.dims[2]) == 3))
  obligation('type kept', z3.BoolVal(r.dtype == dt))
  src = r.op[1] if r.op[0] == 'cast' else r
  obligation('resized from the image with the requested method', z3.BoolVal(src.op[0] == 'resize' and src.op[1] is x and src.op[3] == (meth or 'bilinear')))


@contract('C29', functions=[f'{MOD}.resize_small'])
def resize_small_keeps_the_aspect():
  m, u = ops()
  s = fresh_int('smaller_size', 1)
  x = image()
  H, W = x.dims[0].t, x.dims[1].t
  with u: r = run_op(m.resize_small, x, 'image', s)
  h, w = it(r.dims[0]), it(r.dims[1])
  obligation('rank and channels kept', z3.And(z3.BoolVal(len(r.dims) == 3), it(r.dims[2]) == 3))
  tall = decide(H <= W)
  small, big, S, B = (h, w, H, W) if tall else (w, h, W, H)
  obligation('smaller side has the requested size', small == s.t)
  rat = z3.ToReal(s.t) / z3.ToReal(S)
  obligation('larger side keeps the aspect ratio up to rounding', z3.And(2 * z3.ToReal(big) - 1 <= 2 * (z3.ToReal(B) * rat), 2 * (z3.ToReal(B) * rat) <= 2 * z3.ToReal(big) + 1))
  src = r.op[1]
  obligation('resized from the image', z3.BoolVal(src.op[0] == 'resize' and src.op[1].op[0] == 'index' and src.op[1].op[1] is x))


@contract('C29', functions=[f'{MOD}.inception_crop', f'{MOD}.resize'])
def inception_crop_is_a_crop():
  m, u = ops()
  x = image(c=[1, 3][core.choose(2)])
  C = x.dims[2]
  h, w = fresh_int('new_h', 1), fresh_int('new_w', 1)
  a, b = fresh_int('area_min', 1, 101), fresh_int('area_max', 1, 101)
  kw = [{}, dict(area_min=a, area_max=b)][core.choose(2)]
  rs = [None, (h, w), (h, w, 'nearest')][core.choose(3)]
  args = {} if rs is None else dict(resize_size=rs[:2], **(dict(resize_method=rs[2]) if len(rs) > 2 else {}))
  with u: r = run_op(m.inception_crop, x, 'image', **args, **kw)
  y0, x0, ch, cw = core.cur().at
  k = core.cur().box
  lo, hi = k['area_range']
  am, bm = (a.t, b.t) if kw else (z3.IntVal(5), z3.IntVal(100))
  obligation('crop area between the given percentages', z3.And(rl(lo) * 100 == z3.ToReal(am), rl(hi) * 100 == z3.ToReal(bm)))
  src = r
  if rs is not None:
    obligation('requested size', z3.And(it(r.dims[0]) == h.t, it(r.dims[1]) == w.t, it(r.dims[2]) == C))
    obligation('type kept', z3.BoolVal(r.dtype == x.dtype))
    src = r.op[1] if r.op[0] == 'cast' else r
    obligation('resized with the requested method', z3.BoolVal(src.op[0] == 'resize' and src.op[3] == (rs[2] if len(rs) > 2 else 'bilinear')))
    src = src.op[1]
  obligation('size of the sampled box, all channels', z3.And(it(src.dims[0]) == ch, it(src.dims[1]) == cw, it(src.dims[2]) == C))
  p = pix(src)
  obligation('pixels of the sampled box', src.fn(p) == x.fn([p[0] + y0, p[1] + x0, p[2]]))


@contract('C29', functions=[f'{MOD}.decode_jpeg_and_inception_crop'])
def decode_and_crop_is_a_crop():
  m, u = ops()
  enc = Bytes()
  a, b = fresh_int('area_min', 1, 101), fresh_int('area_max', 1, 101)
  rs = core.choose(2)
  sizes = []
  def rsz(size, *r): return lambda d: {'image': tok('resized', size, d['image'])}
  with u, use(m, resize=rsz): r = run_op(m.decode_jpeg_and_inception_crop, enc, 'image', area_min=a, area_max=b, **(dict(resize_size='SIZE') if rs else {}))
  if rs:
    obligation('resized to the requested size', z3.BoolVal(r.tok[:2] == ('resized', 'SIZE')))
    r = r.tok[2]
  y0, x0, ch, cw = core.cur().at
  lo, hi = core.cur().box['area_range']
  obligation('crop area between the given percentages', z3.And(rl(lo) * 100 == z3.ToReal(a.t), rl(hi) * 100 == z3.ToReal(b.t)))
  obligation('decodes the given image with three channels', z3.BoolVal(r.tok[0] == 'jpeg' and r.tok[1] is enc and r.tok[3] == 3))
  obligation('window of the sampled box', z3.And(*[it(p) == q for p, q in zip(r.tok[2], (y0, x0, ch, cw))]))


@contract('C29', functions=[f'{MOD}.value_range'])
def value_range_maps_and_clips():
  """Any image, ranges (input range not empty), scalar or per channel."""
  m, u = ops()
  x = image(['uint8', 'float32'][core.choose(2)])
  vmin, vmax = fresh_real('vmin'), fresh_real('vmax')
  form = core.choose(3)
  los, his = [fresh_real(f'lo{c}') for c in range(3)], [fresh_real(f'hi{c}') for c in range(3)]
  for a, b in zip(los, his): assume(a.t != b.t)
  kw = [{}, dict(in_min=los[0], in_max=his[0]), dict(in_min=los, in_max=his)][form]
  clip = core.choose(2)
  if clip: assume(vmin.t <= vmax.t)
  with u: r = run_op(m.value_range, x, 'image', vmin, vmax, **kw, **(dict(clip_values=True) if clip else {}))
  obligation('same size', z3.And(z3.BoolVal(len(r.dims) == 3), *[it(p) == it(q) for p, q in zip(r.dims, x.dims)]))
  obligation('floating point', z3.BoolVal(r.dtype == 'float32'))
  p = pix(r)
  for c in range(3):
    q = p[:2] + [z3.IntVal(c)]
    lo, hi = [(z3.RealVal(0), z3.RealVal(255)), (los[0].t, his[0].t), (los[c].t, his[c].t)][form]
    e = vmin.t + (x.fn(q) - lo) / (hi - lo) * (vmax.t - vmin.t)
    if clip:
      obligation('values within the range', z3.And(r.fn(q) >= vmin.t, r.fn(q) <= vmax.t))
      e = z3.If(e < vmin.t, vmin.t, z3.If(e > vmax.t, vmax.t, e))
    obligation('affine map of the input range on the output range', r.fn(q) == e)


def labels(rank):
  f = z3.Function(core.cur().fresh('Label'), *[I] * rank, I) if rank else None
  c = fresh_int('label') if rank == 0 else None
  n = [fresh_int('num_labels', 0)] if rank else []
  return Ten(n, (lambda i: z3.ToReal(f(*i))) if rank else (lambda i: z3.ToReal(c.t)), 'int32')


@contract('C29', functions=[f'{MOD}.onehot'])
def onehot_marks_the_labels():
  """Any number of labels, repeated or not, any depth and values."""
  m, u = ops()
  rank = core.choose(2)
  multi = [None, True, False][core.choose(3)]
  lab = labels(rank)
  depth = fresh_int('depth', 1)
  on, off = fresh_real('on'), fresh_real('off')
  kw = {} if core.choose(2) == 0 else dict(on=on, off=off)
  onv, offv = (on.t, off.t) if kw else (z3.RealVal(1), z3.RealVal(0))
  if multi is not None: kw['multi'] = multi
  with u: r = run_op(m.onehot, lab, 'labels', depth, **kw)
  merged = rank and multi in (None, True)
  obligation('length of the encoding', z3.And(z3.BoolVal(len(r.dims) == (1 if merged else rank + 1)), it(r.dims[-1]) == depth.t))
  p = pix(r)
  if merged:
    q = fresh_int('which', 0)
    assume(q.t < lab.dims[0].t)
    v = p[0]
    assume(core.cur().lemma(q.t, v))
    obligation('a present label is on', z3.Implies(lab.fn([q.t]) == z3.ToReal(v), r.fn(p) == onv))
    z = fresh_int('class', 0)
    core.cur().choose_dummy = None
    # the class is off unless some label names it: the witness of a hit is a label.
    k = z3.Int(core.cur().fresh('k'))
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lab.dims[0].t), lab.fn([k]) != z3.ToReal(z.t)), patterns=[lab.fn([k])]))
    obligation('an absent label is off', r.fn([z.t]) == offv)
  else:
    obligation('on exactly at the label', r.fn(p) == z3.If(lab.fn(p[:-1]) == z3.ToReal(p[-1]), onv, offv))


@contract('C29', functions=[f'{MOD}.ignore_no_labels'])
def examples_without_labels_are_invalid():
  m, u = ops()
  lab = labels(1)
  key, vk = [('labels', m.VALID_KEY), ('other', 'v')][core.choose(2)]
  has = core.choose(3)
  v0 = fresh_bool('valid')
  data = {key: lab, 'image': object()}
  if has == 1: data[vk] = v0
  if has == 2: data[vk] = False
  before = dict(data)
  with u: r = m.ignore_no_labels(**({} if key == 'labels' else dict(labels_key=key, valid_key=vk)))(data)
  was = [z3.BoolVal(True), v0.t, z3.BoolVal(False)][has]
  obligation('valid exactly if it was valid and has labels', core.as_z3bool(r[vk]) == z3.And(was, lab.dims[0].t > 0))
  obligation('all other values are kept', z3.BoolVal(set(r) == set(before) | {vk} and all(r[k] is before[k] for k in before if k != vk)))
  obligation('the given example is not changed', z3.BoolVal(set(data) == set(before) and all(data[k] is before[k] for k in before)))


@contract('C29', functions=[f'{MOD}.keep', f'{MOD}.copy', f'{MOD}.flatten'])
def keep_and_copy():
  m, u = ops()
  names = ['image', 'labels', 'extra', m.VALID_KEY]
  data = {n: object() for n in names if core.choose(2)}
  want = [n for n in ('image', 'labels', 'absent') if core.choose(2)]
  before = dict(data)
  with u:
    r = m.keep(*want)(data)
    obligation('exactly the wanted keys and the validity mark', z3.BoolVal(r == {k: v for k, v in before.items() if k in want or k == m.VALID_KEY}))
    if data:
      src = list(data)[0]
      c = m.copy(src, 'dst')(dict(before))
      obligation('copied under the new name, everything else kept', z3.BoolVal(c == dict(before, dst=before[src])))
      c = m.copy(src, list(data)[-1])(dict(before))
      obligation('copied over an existing name', z3.BoolVal(c == {**before, list(before)[-1]: before[src]}))


@contract('C29', functions=[f'{MOD}.flip_lr', f'{MOD}.reshape', f'{MOD}.decode'])
def flip_reshape_decode():
  m, u = ops()
  x = image()
  k = core.choose(3)
  with u:
    if k == 0:
      r = run_op(m.flip_lr, x, 'image')
      p = pix(r)
      q = [p[0], x.dims[1].t - 1 - p[1], p[2]]
      p2 = pix(x)
      mir = [p2[0], x.dims[1].t - 1 - p2[1], p2[2]]
      obligation('the image or its mirror image', z3.Or(z3.And(r.fn(p) == x.fn(p), r.fn(p2) == x.fn(p2)), z3.And(r.fn(p) == x.fn(q), r.fn(p2) == x.fn(mir))))
    elif k == 1:
      ns_ = (fresh_int('a', 1), fresh_int('b', 1))
      r = run_op(m.reshape, x, 'image', ns_)
      obligation('reshaped as requested, type kept', z3.BoolVal(r.op[0] == 'reshape' and r.op[1] is x and tuple(r.op[2]) == ns_ and r.dtype == x.dtype))
    else:
      enc = Bytes()
      ch = [None, 1, 3][core.choose(3)]
      r = run_op(m.decode, enc, 'image', **({} if ch is None else dict(channels=ch)))
      obligation('decodes the given image with the requested channels as one picture', z3.BoolVal(r.tok == ('decoded', enc, ch or 3, False)))
