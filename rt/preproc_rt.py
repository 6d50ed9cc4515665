"""C29 (vmoe/data/pp_ops.py): contracts evaluated on the real code with the real TensorFlow."""
import numpy as np
from rt.base import check, raises


def mods():
  import tensorflow as tf
  from vmoe.data import pp_ops
  return tf, pp_ops


def coords(h, w, c=3, dtype=np.uint8):
  """Channel 0 is the row, channel 1 the column."""
  x = np.zeros((h, w, c), dtype)
  x[..., 0] = np.arange(h)[:, None]
  if c > 1: x[..., 1] = np.arange(w)[None]
  if c > 2: x[..., 2] = 7
  return x


def apply(run, pp, tf, make, x, default, *args, graph=False, **kw):
  """Runs the op with random key options; only the output key may change."""
  rng = run.rng
  opts, src, dst = rng.choice([({}, default, default), ({}, default, default), (dict(key='k'), 'k', 'k'), (dict(key='k', outkey='b'), 'k', 'k'), (dict(key='k', inkey='a'), 'k', 'k'), (dict(inkey='a'), 'a', default),
                               (dict(outkey='b'), default, 'b'), (dict(inkey='a', outkey='b'), 'a', 'b')])
  data = {'image': np.int32(1), 'labels': np.int32(2), 'k': np.int32(3), 'a': np.int32(4), 'other': np.int32(5)}
  data[src] = x
  before = dict(data)
  f = make(*args, **kw, **opts)
  if graph:
    ds = tf.data.Dataset.from_tensors(data).map(f)
    out = {k: v.numpy() for k, v in next(iter(ds)).items()}
  else:
    out = {k: (v.numpy() if hasattr(v, 'numpy') else v) for k, v in f(dict(data, **{src: tf.constant(x)})).items()}
  run.expect(set(out) == set(before) | {dst}, 'no-key-lost-or-invented', f'{sorted(out)}')
  for k in before:
    if k != dst: run.expect(np.array_equal(out[k], before[k]), 'other-values-kept', f'{k}')
  return np.asarray(out[dst])


@check('C29')
def crops(run):
  tf, pp = mods()
  rng = run.rng
  tf.random.set_seed(rng.randrange(10**6))
  for it in range(run.n(60, 600)):
    H, W = rng.randrange(1, 60), rng.randrange(1, 60)
    h, w = rng.randrange(1, H + 1), rng.randrange(1, W + 1)
    sq = rng.random() < .4
    if sq: h = w = min(h, w)
    arg = rng.choice([h, (h, w)]) if sq else rng.choice([(h, w), [h, w]])
    dt = rng.choice([np.uint8, np.float32])
    x = coords(H, W, rng.choice([1, 2, 3]), dt)
    run.case('central_crop', image=x.shape, crop=arg)
    r = apply(run, pp, tf, pp.central_crop, x, 'image', arg, graph=it % 5 == 0)
    dy, dx = (H - h) // 2, (W - w) // 2
    run.expect(r.dtype == x.dtype and np.array_equal(r, x[dy:dy + h, dx:dx + w]), 'centre-of-the-image', f'{r.shape} {r[..., 0].min()}')
  flips = set()
  for it in range(60):
    x = run.np.integers(0, 255, (3, 5, 3)).astype(np.uint8)
    run.case('flip', it=it)
    r = apply(run, pp, tf, pp.flip_lr, x, 'image')
    same, mir = np.array_equal(r, x), np.array_equal(r, x[:, ::-1])
    run.expect(same or mir, 'image-or-mirror')
    flips |= {'same'} if same else {'mirror'}
  run.expect(flips == {'same', 'mirror'}, 'flips-at-random', f'{flips} in 60 draws')
  for it in range(run.n(40, 400)):
    H, W = rng.randrange(20, 120), rng.randrange(20, 120)
    lo, hi = rng.choice([(5, 100), (20, 40), (50, 100), (1, 10), (90, 100)])
    c = rng.choice([2, 3])
    x = coords(H, W, c)
    run.case('inception_crop', image=x.shape, area=(lo, hi))
    r = apply(run, pp, tf, pp.inception_crop, x, 'image', **({} if (lo, hi) == (5, 100) else dict(area_min=lo, area_max=hi)), graph=it % 4 == 0)
    y0, x0 = int(r[0, 0, 0]), int(r[0, 0, 1])
    h, w = r.shape[:2]
    run.expect(r.shape[2] == c and np.array_equal(r, x[y0:y0 + h, x0:x0 + w]), 'crop-of-the-image', f'{r.shape} at {y0, x0}')
    a = h * w / (H * W) * 100
    slack = (h + w + 1) / (H * W) * 100
    # the sampler falls back to the whole image if it finds no box
    run.expect(lo - slack <= a <= hi + slack or (h, w) == (H, W), 'crop-area-in-range', f'{a:.1f}% not in {lo, hi}')
    s = rng.choice([(4, 6), 5, [8, 3]])
    r = apply(run, pp, tf, pp.inception_crop, x, 'image', resize_size=s, **rng.choice([{}, dict(resize_method='nearest')]))
    run.expect(r.shape == ((s, s) if isinstance(s, int) else tuple(s)) + (c,) and r.dtype == x.dtype, 'requested-size', f'{r.shape} {r.dtype}')
    f = x.astype(np.float32)
    r = apply(run, pp, tf, pp.inception_crop, f, 'image', resize_size=(1, 1), area_min=100, area_max=100)
    run.expect(r.dtype == np.float32, 'type-kept')
    r = apply(run, pp, tf, pp.inception_crop, f, 'image', resize_size=(4, 4), resize_method='nearest')
    run.expect(bool(np.all(r == np.round(r))), 'resize-method', 'nearest resize gave new values')
  for it in range(run.n(15, 100)):
    H, W = rng.randrange(16, 64), rng.randrange(16, 64)
    # noise in brightness and one hue: decoders of crops interpolate colour differently at the borders
    x = (run.np.integers(40, 200, (H, W, 1)) + np.asarray(rng.choice([[0, 0, 0], [25, 0, 10], [0, 30, 15]]))).astype(np.uint8)
    enc = tf.io.encode_jpeg(x, quality=95).numpy()
    full = tf.io.decode_jpeg(enc).numpy()
    lo, hi = rng.choice([(5, 100), (30, 60)])
    run.case('decode_crop', image=x.shape, area=(lo, hi))
    kw = dict(area_min=lo, area_max=hi)
    r = apply(run, pp, tf, pp.decode_jpeg_and_inception_crop, enc, 'image', **kw)
    h, w = r.shape[:2]
    found = any(np.array_equal(full[a:a + h, b:b + w], r) for a in range(H - h + 1) for b in range(W - w + 1))
    close = found or any(np.abs(full[a:a + h, b:b + w].astype(int) - r).max() <= 40 for a in range(H - h + 1) for b in range(W - w + 1))
    run.expect(r.shape[2] == 3 and close, 'crop-of-the-decoded-image', f'{r.shape}')
    a = h * w / (H * W) * 100
    slack = (h + w + 1) / (H * W) * 100
    run.expect(lo - slack <= a <= hi + slack or (h, w) == (H, W), 'crop-area-in-range', f'{a:.1f}% not in {lo, hi}')
    r = apply(run, pp, tf, pp.decode_jpeg_and_inception_crop, enc, 'image', resize_size=(5, 7), **kw)
    run.expect(r.shape == (5, 7, 3), 'requested-size', f'{r.shape}')
    for ch in (None, 1, 3):
      png = tf.io.encode_png(x[..., :1] if ch == 1 else x).numpy()
      r = apply(run, pp, tf, pp.decode, png, 'image', **({} if ch is None else dict(channels=ch)))
      run.expect(np.array_equal(r, x[..., :1] if ch == 1 else x), 'decoded-image', f'channels {ch}: {r.shape}')


@check('C29')
def resizes(run):
  tf, pp = mods()
  rng = run.rng
  for it in range(run.n(60, 500)):
    H, W, c = rng.randrange(1, 60), rng.randrange(1, 60), rng.choice([1, 3])
    dt = rng.choice([np.uint8, np.float32, np.int32])
    x = run.np.integers(10, 240, (H, W, c)).astype(dt)
    s = rng.choice([1, 4, (3, 8), [9, 2], (1, 5), 33])
    meth = rng.choice([None, 'bilinear', 'nearest', 'area'])
    run.case('resize', image=x.shape, dtype=str(x.dtype), size=s, method=meth)
    r = apply(run, pp, tf, pp.resize, x, 'image', s, **({} if meth is None else dict(resize_method=meth)), graph=it % 6 == 0)
    want = ((s, s) if isinstance(s, int) else tuple(s)) + (c,)
    run.expect(r.shape == want and r.dtype == x.dtype, 'requested-size-and-type', f'{r.shape} {r.dtype}')
    ref = tf.cast(tf.image.resize(x, want[:2], meth or 'bilinear'), x.dtype).numpy()
    run.expect(np.allclose(r, ref, atol=1.01 if dt != np.float32 else 1e-3), 'resized-image')
    run.expect(r.min() >= x.min() - 1 and r.max() <= x.max() + 1, 'values-in-the-range-of-the-image', f'{r.min()} {r.max()}')
    k = rng.choice([1, 2, 7, 16, 33])
    run.case('resize_small', image=x.shape, size=k)
    r = apply(run, pp, tf, pp.resize_small, x, 'image', k, graph=it % 6 == 1)
    m = min(H, W)
    run.expect(r.ndim == 3 and r.shape[2] == c and min(r.shape[:2]) == k, 'smaller-side', f'{x.shape} -> {r.shape}, asked {k}')
    for d in (0, 1):
      run.expect(abs(r.shape[d] - x.shape[d] * k / m) <= .5 + 1e-4, 'aspect-ratio', f'{x.shape} -> {r.shape}, asked {k}')
    run.expect(r.min() >= x.min() - 1 and r.max() <= x.max() + 1, 'values-in-the-range-of-the-image', f'{r.min()} {r.max()}')
    shp = rng.choice([(H * W, c), (c, W, H), (H, W * c), (-1,)])
    r = apply(run, pp, tf, pp.reshape, x, 'image', shp)
    run.expect(r.dtype == x.dtype and np.array_equal(r, x.reshape(shp)), 'reshaped')


@check('C29')
def values(run):
  tf, pp = mods()
  rng = run.rng
  for it in range(run.n(150, 1500)):
    c = 3
    dt = rng.choice([np.uint8, np.float32])
    x = run.np.integers(0, 256, (rng.randrange(1, 5), rng.randrange(1, 5), c)).astype(dt)
    if dt == np.float32 and rng.random() < .5: x = (x - 100) * 1.7
    vmin, vmax = rng.choice([(-1, 1), (0, 1), (-1., 1.), (0, 255), (2.5, 4), (-3, -1), (1, -1)])
    kw = rng.choice([{}, dict(in_min=10, in_max=200), dict(in_max=100.), dict(in_min=[0.1, 10, 50], in_max=[255, 200, 60.]), dict(in_min=(0.5, 0.4, 0.3), in_max=(1.5, 2, 3)), dict(in_min=-50), dict(in_max=[255, 200, 60.]), dict(in_min=5, in_max=(100., 200, 60.)), dict(in_min=[-1, 10, 50])])
    clip = rng.choice([None, True, False]) if vmin <= vmax else None
    if clip is not None: kw['clip_values'] = clip
    run.case('value_range', image=x.tolist(), dtype=str(x.dtype), range=(vmin, vmax), **kw)
    r = apply(run, pp, tf, pp.value_range, x, 'image', vmin, vmax, **kw, graph=it % 10 == 0)
    lo, hi = np.asarray(kw.get('in_min', 0), np.float64), np.asarray(kw.get('in_max', 255.), np.float64)
    want = vmin + (x.astype(np.float64) - lo) / (hi - lo) * (vmax - vmin)
    if clip: want = np.clip(want, vmin, vmax); run.expect(r.min() >= vmin and r.max() <= vmax, 'values-within-the-range', f'{r.min()} {r.max()}')
    run.expect(r.dtype == np.float32 and r.shape == x.shape and np.allclose(r, want, rtol=1e-4, atol=1e-3), 'affine-map', f'{np.abs(r - want).max() if r.shape == want.shape else r.shape}')
  for it in range(run.n(150, 1500)):
    depth = rng.choice([1, 2, 5, 10])
    n = rng.choice([None, 0, 1, 2, 3, 7])
    lab = np.array(rng.randrange(depth), np.int64) if n is None else np.array([rng.randrange(depth) for _ in range(n)], rng.choice([np.int32, np.int64]))
    kw = rng.choice([{}, dict(on=.9, off=.1), dict(on=-1., off=1.), dict(on=3., off=3.5), dict(on=0.5)])
    multi = rng.choice([None, True, False])
    if multi is not None: kw['multi'] = multi
    run.case('onehot', labels=lab.tolist(), depth=depth, **kw)
    r = apply(run, pp, tf, pp.onehot, lab, 'labels', depth, **kw, graph=it % 10 == 0)
    on, off = kw.get('on', 1.), kw.get('off', 0.)
    if n is not None and multi is not False:
      want = np.full((depth,), off)
      want[lab] = on
    else:
      want = np.where(lab[..., None] == np.arange(depth), on, off)
    run.expect(r.shape == want.shape and np.allclose(r, want, atol=1e-6), 'on-at-the-labels-off-elsewhere', f'{r.tolist()} vs {want.tolist()}')


@check('C29')
def dictionaries(run):
  tf, pp = mods()
  rng = run.rng
  V = pp.VALID_KEY
  for it in range(run.n(100, 500)):
    n = rng.choice([0, 1, 3])
    data = {'labels': tf.constant([rng.choice([0, 3, -1]) for _ in range(n)], tf.int32), 'image': tf.ones((2, 2, 3)), 'o': tf.zeros((1 - min(n, 1),), tf.int32)}
    kw = rng.choice([{}, {}, dict(labels_key='o'), dict(valid_key='v'), dict(labels_key='o', valid_key='v')])
    vk, lk = kw.get('valid_key', V), kw.get('labels_key', 'labels')
    was = rng.choice([None, True, False, 1., 0.])
    if was is not None: data[vk] = was
    before = dict(data)
    run.case('ignore_no_labels', labels=n, valid=was, **kw)
    r = pp.ignore_no_labels(**kw)(data)
    ok = bool(True if was is None else was) and int(tf.size(before[lk])) > 0
    run.expect(bool(r[vk]) == ok, 'valid-iff-valid-and-labelled', f'{r[vk]} vs {ok}')
    run.expect(set(r) == set(before) | {vk} and all(r[k] is before[k] for k in before if k != vk), 'other-values-kept')
    run.expect(set(data) == set(before) and all(data[k] is before[k] for k in before), 'given-example-unchanged')
    want = [k for k in ('image', 'labels', 'o', 'zz') if rng.random() < .5]
    d2 = {k: object() for k in ('image', 'labels', 'o', V, '_meta', 'labelsx') if rng.random() < .7}
    run.case('keep', keys=want, data=sorted(d2))
    r = pp.keep(*want)(dict(d2))
    run.expect(r == {k: v for k, v in d2.items() if k in want or k == V}, 'wanted-keys-and-validity', f'{sorted(r)}')
    if d2:
      a, b = rng.choice(sorted(d2)), rng.choice(['new', 'image', 'o'])
      r = pp.copy(a, b)(dict(d2))
      run.expect(r == dict(d2, **{b: d2[a]}), 'copied', f'{a} -> {b}')
    nested = {'a': {'b': 1, 'c': {'d': 2}}, 'e': 3}
    run.expect(pp.flatten()(nested) == {'a/b': 1, 'a/c/d': 2, 'e': 3}, 'flattened')
  run.case('tokenize')
  run.expect(raises(lambda: pp.tokenize(5, eos='maybe')), 'unknown-end-of-sentence-option-rejected')
