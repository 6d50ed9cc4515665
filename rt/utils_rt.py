"""C13, C28 (vmoe/utils.py): contracts evaluated on the real code."""
import itertools
import numpy as np
from rt.base import check, raises


def _objarr(l):
  a = np.empty(len(l), dtype=object)
  for i, x in enumerate(l): a[i] = x
  return a


def _kinds():
  class It:
    def __init__(self, l): self.l = list(l)
    def __iter__(self): return iter(self.l)
  class Own:      # an iterator without __iter__ trickery
    def __init__(self, l): self.l, self.i = list(l), 0
    def __iter__(self): return self
    def __next__(self):
      if self.i >= len(self.l): raise StopIteration
      self.i += 1
      return self.l[self.i - 1]
  class Seq:      # old-style sequence protocol
    def __init__(self, l): self.l = list(l)
    def __getitem__(self, i): return self.l[i]
  def gen(l):
    yield from l
  return [list, tuple, iter, gen, It, Own, Seq, lambda l: dict.fromkeys(l), _objarr]


@check('C13')
def checked_zip(run):
  from vmoe import utils
  kinds = _kinds()
  lens_all = [c for k in range(0, 5) for c in itertools.product(range(4), repeat=k)]
  run.rng.shuffle(lens_all)
  lens_all = [c for c in itertools.chain.from_iterable(itertools.product(range(3), repeat=k) for k in range(4))] + lens_all[:run.n(250, 341)]
  falsy = [0, None, '', False, (), 0.0]
  for lens in lens_all:
    for rep in range(run.n(2, 8)):
      data = [[(j, i) if rep % 2 else falsy[(i + j) % len(falsy)] for i in range(n)] for j, n in enumerate(lens)]
      ks = [run.rng.randrange(len(kinds)) for _ in lens]
      if not rep % 2: ks = [k if k != 7 else 0 for k in ks]    # dict would merge equal falsy keys
      for fn in ('zip', 'map'):
        srcs = [kinds[k](d) for k, d in zip(ks, data)]
        run.case('checked_zip', lens=lens, kinds=ks, fn=fn, falsy=not rep % 2)
        got, err = [], None
        try:
          it = utils.safe_zip(*srcs) if fn == 'zip' else utils.safe_map(lambda *a: a, *srcs)
          for x in it:
            got.append(tuple(x))
            if len(got) > 10: break
        except Exception as e:
          err = e
        want = list(zip(*data)) if lens else []
        m = min(lens) if lens else 0
        run.expect(got == want[:m] or (err is None and got == want), 'aligned-tuples-in-order-once', f'got {got}, want {want}')
        if len(set(lens)) > 1:
          run.expect(err is not None, 'different-lengths-raise', f'no error for lengths {lens}')
          run.expect(not isinstance(err, (StopIteration, TypeError, AttributeError)), 'different-lengths-raise', repr(err))
        else:
          run.expect(err is None, 'equal-lengths-do-not-raise', repr(err))
          run.expect(len(got) == m, 'all-elements-yielded', f'{got}')


@check('C13')
def checked_zip_long(run):
  """Lengths far beyond any internal buffer, of every kind of iterable."""
  from vmoe import utils
  kinds = _kinds()
  for k, kind in enumerate(kinds):
    n = 3000 + 1000 * run.rng.randrange(3)
    for d in (0, 1, 1001):
      other = kinds[run.rng.randrange(len(kinds))]
      for fn in ('zip', 'map'):
        run.case('checked_zip_long', kind=k, n=n, shorter_by=d, fn=fn)
        a, b = kind(list(range(n))), other(list(range(n - d)))
        got, err = [], None
        try:
          for x in (utils.safe_zip(a, b) if fn == 'zip' else utils.safe_map(lambda *v: v, a, b)): got.append(tuple(x))
        except Exception as e: err = e
        run.expect(got == [(i, i) for i in range(n - d)][:len(got) if err else None], 'aligned-tuples-in-order-once', f'{len(got)} tuples')
        run.expect((err is not None) == (d > 0), 'different-lengths-raise' if d else 'equal-lengths-do-not-raise', repr(err))


@check('C13')
def checked_zip_is_lazy(run):
  """Infinite sources are consumed in lock step."""
  from vmoe import utils
  run.case('lazy')
  z = utils.safe_zip(itertools.count(), itertools.count(10), itertools.count(20))
  run.expect([next(iter(z)) for _ in range(5)] == [(i, 10 + i, 20 + i) for i in range(5)], 'lock-step')
  m = utils.safe_map(lambda a, b: a + b, itertools.count(), itertools.count(10))
  run.expect([next(m) for _ in range(5)] == [10 + 2 * i for i in range(5)], 'lock-step')
  long = list(range(5000))
  run.expect(list(utils.safe_zip(long, long)) == list(zip(long, long)), 'aligned-tuples-in-order-once')
  for d in (1, 7):
    run.expect(raises(lambda: list(utils.safe_zip(long, long + [0] * d))), 'different-lengths-raise', f'+{d}')
    run.expect(raises(lambda: list(utils.safe_zip(long + [0] * d, long))), 'different-lengths-raise', f'+{d}')
