"""Loop contracts: mechanical rewriting of loops that have an invariant.

Only modules with a registered loop contract are rewritten, on every run, from
the current source. A loop

    for T in ITER: BODY
    else: ORELSE

becomes

    __lp = __vc_loop__(id, ITER)
    for T in __lp:
      if __lp.cut: v1 = __lp.new('v1'); ...    # loop-carried names
      BODY
    else:
      if __lp.cut: v1 = __lp.new('v1'); ...
      ORELSE

and comprehensions `[E for T in ITER]` become `__vc_comp__(kind, lambda T: E, ITER)`.
On concrete iterables both behave exactly as the original. On a symbolic
sequence with a contract the loop is cut: the invariant is checked on entry, and
then either an arbitrary iteration starts from a havocked state satisfying the
invariant (and must re-establish it, or leave the loop), or the loop is
exhausted in a havocked state satisfying the invariant. Names assigned in the
body that the contract does not give become poison (their use is Unsupported).
"""
import ast
import builtins
import json
import os
import sys
import types

import z3

from vc import core, loader
from vc.core import Unsupported, PathEnd, term, wrap, fresh_int, assume, obligation

SPECS = {}      # (module, 'qualname#n') -> LoopSpec


class Poison:
  """Value of a loop-local name at a cut point."""
  __vc_symbolic__ = True

  def __init__(self, name): self.__dict__['_n'] = name

  def _bad(self, *a, **k): raise Unsupported(f'loop-carried name {self._n} is not in the loop contract')
  __getattr__ = __call__ = __iter__ = __bool__ = __add__ = __radd__ = __sub__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
  __getitem__ = __setitem__ = __setattr__ = __len__ = __contains__ = __ne__ = __mul__ = _bad
  __hash__ = None


class LoopSpec:
  """inv(i, n, state) -> list of (name, formula); havoc(i, n, outer) -> dict of new values."""

  def __init__(self, havoc=None, inv=None, on_end=None, vars=(), inplace=()):
    self.inplace = tuple(inplace)     # names whose object the contract's havoc changes in place
    self.havoc, self.inv, self.vars = havoc or (lambda i, n, st: {}), inv or (lambda i, n, st: []), tuple(vars)
    self.hints = {}


def loop(module, where, vars=(), havoc=None, inv=None, hints=None, inplace=()):
  s = LoopSpec(havoc, inv, vars=vars, inplace=inplace)
  s.hints = hints or {}
  SPECS[(module, where)] = s
  loader.TRANSFORMS.setdefault(module, lambda tree, m=module: transform(m, tree))
  return s


def enable(module):
  """Rewrites comprehensions/loops of the module (no loop contract needed)."""
  loader.TRANSFORMS.setdefault(module, lambda tree, m=module: transform(m, tree))


MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'popleft', 'appendleft', 'insert', 'remove', 'clear', 'setdefault',
            'discard', 'popitem', 'sort', 'reverse', 'put', 'write'}


def _names(t):
  return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _assigned(body):
  """Names assigned and names mutated in statements (not in nested functions)."""
  out, mut = [], []

  def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
    return e.id if isinstance(e, ast.Name) else None

  class V(ast.NodeVisitor):
    def visit_FunctionDef(self, n): out.append(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): self.comp(n)
    def visit_SetComp(self, n): self.comp(n)
    def visit_GeneratorExp(self, n): self.comp(n)
    def visit_DictComp(self, n): self.comp(n)

    def comp(self, n):
      for c in ast.walk(n):
        if isinstance(c, ast.Call): self.call(c)
        if isinstance(c, ast.NamedExpr): out.append(c.target.id)

    def visit_Name(self, n):
      if isinstance(n.ctx, (ast.Store, ast.Del)): out.append(n.id)

    def visit_Subscript(self, n):
      if isinstance(n.ctx, ast.Store):
        b = base(n)
        if b: mut.append(b)
      self.generic_visit(n)

    def visit_Attribute(self, n):
      if isinstance(n.ctx, ast.Store):
        b = base(n)
        if b: mut.append(b)
      self.generic_visit(n)

    def call(self, n):
      if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        b = base(n.func.value)
        if b: mut.append(b)

    def visit_Call(self, n):
      self.call(n)
      self.generic_visit(n)
    def visit_ExceptHandler(self, n):
      if n.name: out.append(n.name)
      self.generic_visit(n)

  for s in body: V().visit(s)
  return list(dict.fromkeys(out)), list(dict.fromkeys(mut))


def shapes(tree):
  """Loops of every function, in order and nesting, e.g. 'W(F)F'."""
  out = {}
  def body(n):
    r = ''
    for x in ast.iter_child_nodes(n):
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)): continue
      inner = body(x)
      if isinstance(x, (ast.For, ast.While)): r += type(x).__name__[0] + (f'({inner})' if inner else '')
      else: r += inner
    return r
  def walk(n, stack):
    for x in ast.iter_child_nodes(n):
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        q = stack + [x.name]
        if not isinstance(x, ast.ClassDef): out['.'.join(q)] = body(x)
        walk(x, q)
      else: walk(x, stack)
  walk(tree, [])
  return out


SHAPES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loop_shapes.json')


def drop_misfits(module, tree):
  """Loop contracts belong to a loop by position: they are only used where the
  function still has the loops they were written for (else: undecided)."""
  try: known = json.load(open(SHAPES)).get(module, {})
  except FileNotFoundError: known = {}
  now = shapes(tree)
  for x in [x for x in MISFIT if x[0] == module]: MISFIT.discard(x)
  for (m, ident) in SPECS:
    q = ident.rsplit('#', 1)[0]
    if m == module and q in known and now.get(q) != known[q]: MISFIT.add((m, ident))


MISFIT = set()


def spec_of(module, ident):
  return None if (module, ident) in MISFIT else SPECS.get((module, ident))


class _T(ast.NodeTransformer):

  def __init__(self, module):
    self.module = module
    self.stack = []
    self.count = [0]
    self.decl = [set()]

  def _fn(self, n):
    self.stack.append(n.name)
    if not isinstance(n, ast.ClassDef):
      self.count.append(0)
      self.decl.append({x for s in ast.walk(n) if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names})
    self.generic_visit(n)
    if not isinstance(n, ast.ClassDef):
      self.count.pop()
      self.decl.pop()
    self.stack.pop()
    return n

  visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _fn

  def qual(self):
    return '.'.join(self.stack)

  def visit_For(self, n):
    k = self.count[-1]; self.count[-1] += 1
    ident = f'{self.qual()}#{k}'
    names, mut = _assigned(n.body)
    tgt = set(_names(n.target))
    spec = spec_of(self.module, ident)
    names = [x for x in names if x not in tgt]
    for v in (spec.vars if spec else ()):
      if v not in names: names.append(v)
    self.generic_visit(n)
    if not self.stack: return n
    lp = f'__lp{abs(hash(ident)) % 10**8}_{k}'
    outer = [m for m in mut if m not in names and m not in tgt and m not in (spec.inplace if spec else ())]
    mk = ast.parse(f'{lp} = __vc_loop__({self.module!r}, {ident!r}, None, {tuple(names)!r}, {tuple(outer)!r})').body[0]
    mk.value.args[2] = n.iter
    asg = [ast.parse(f'if {lp}.cut: {v} = {lp}.new({v!r})').body[0] for v in names]
    n.iter = ast.Name(lp, ast.Load())
    n.body = asg + n.body
    import copy
    n.orelse = [copy.deepcopy(a) for a in asg] + n.orelse
    if not n.orelse: pass
    for x in [mk] + asg + n.orelse[:len(asg)]: ast.copy_location(x, n); [ast.copy_location(y, n) for y in ast.walk(x) if hasattr(y, 'lineno') or isinstance(y, (ast.expr, ast.stmt))]
    return [mk, n]

  def visit_While(self, n):
    k = self.count[-1]; self.count[-1] += 1
    ident = f'{self.qual()}#{k}'
    spec = spec_of(self.module, ident)
    names, mut = _assigned(n.body + [ast.Expr(n.test)])
    self.generic_visit(n)
    if spec is None and self.stack and (n.test.__class__ is not ast.Constant) and any(m == self.module and i.rsplit('#', 1)[0] == self.qual() for m, i in MISFIT):
      n.test = ast.copy_location(ast.Call(ast.Name('__vc_misfit__', ast.Load()), [ast.Constant(ident), n.test], []), n)
      return n
    if spec is None or not self.stack: return n
    if n.orelse: raise Unsupported('while-else with a loop contract')
    for v in spec.vars:
      if v not in names: names.append(v)
    outer = [m for m in mut if m not in names and m not in spec.inplace]
    lp = f'__lp{abs(hash(ident)) % 10**8}_{k}'
    mk = ast.parse(f'{lp} = __vc_while__({self.module!r}, {ident!r}, {tuple(names)!r}, {tuple(outer)!r})').body[0]
    asg = [ast.parse(f'{v} = {lp}.new({v!r})').body[0] for v in names]
    brk = ast.parse('while 0:\n  if not X: break').body[0].body[0]
    brk.test.operand = n.test
    loop_ = ast.parse(f'for _ in {lp}: pass').body[0]
    loop_.body = asg + [brk] + n.body
    for x in (mk, loop_):
      for y in ast.walk(x):
        if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'): ast.copy_location(y, n)
      ast.copy_location(x, n)
    return [mk, loop_]

  def comp(self, n, kind):
    self.generic_visit(n)
    if len(n.generators) == 2 and self.stack: return self.comp2(n, kind)
    if len(n.generators) != 1 or n.generators[0].is_async: return n
    g = n.generators[0]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n)): return n
    if not self.stack or (self.stack and self.qual() and False): return n
    # class scope comprehension cannot become lambdas.
    tgt = g.target
    def lam(e):
      f = ast.parse('lambda __x: (lambda X: 0)(*__x)', mode='eval').body
      names = list(dict.fromkeys(_names(tgt)))
      if isinstance(tgt, ast.Name):
        l = ast.Lambda(ast.arguments([], [ast.arg(tgt.id)], None, [], [], None, []), e)
        return l
      if isinstance(tgt, ast.Tuple) and all(isinstance(t, ast.Name) for t in tgt.elts):
        l = ast.Lambda(ast.arguments([], [ast.arg(t.id) for t in tgt.elts], None, [], [], None, []), e)
        return ast.Call(ast.Name('__vc_star__', ast.Load()), [l, ast.Constant(len(tgt.elts))], [])
      return None
    if kind == 'dict':
      f, f2 = lam(n.key), lam(n.value)
      if f is None: return n
      fs = [f, f2]
    else:
      f = lam(n.elt)
      if f is None: return n
      fs = [f]
    cond = ast.Constant(None)
    if g.ifs:
      c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
      cond = lam(c)
    call = ast.Call(ast.Name('__vc_comp__', ast.Load()), [ast.Constant(kind), g.iter, cond] + fs, [])
    for y in ast.walk(call):
      if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'): ast.copy_location(y, n)
    return ast.copy_location(call, n)

  def comp2(self, n, kind):
    """[E for a in A for b in B] -> __vc_comp2__(kind, A, a -> B, (a, b) -> E)."""
    ga, gb = n.generators
    if ga.ifs or gb.ifs or ga.is_async or gb.is_async: return n
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n)): return n
    def names(t):
      if isinstance(t, ast.Name): return [t.id]
      if isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts): return [x.id for x in t.elts]
    na, nb = names(ga.target), names(gb.target)
    if na is None or nb is None: return n
    def lam(ns, e): return ast.Lambda(ast.arguments([], [ast.arg(x) for x in ns], None, [], [], None, []), e)
    def cst(v): return ast.Constant(v)
    es = [n.key, n.value] if kind == 'dict' else [n.elt]
    shape = (len(na) if isinstance(ga.target, ast.Tuple) else 0, len(nb) if isinstance(gb.target, ast.Tuple) else 0)
    call = ast.Call(ast.Name('__vc_comp2__', ast.Load()),
                    [cst(kind), ga.iter, cst(shape[0]), lam(na, gb.iter), cst(shape[1])] +
                    [lam(na, lam(nb, e)) for e in es], [])
    for y in ast.walk(call):
      if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'): ast.copy_location(y, n)
    return ast.copy_location(call, n)

  def visit_JoinedStr(self, n):
    """f-strings over symbolic strings are concatenations (others as usual)."""
    self.generic_visit(n)
    if not self.stack: return n
    args = []
    for v in n.values:
      if isinstance(v, ast.FormattedValue):
        if v.conversion == -1 and v.format_spec is None: args.append(v.value)
        else: args.append(ast.JoinedStr([v]))
      else: args.append(v)
    call = ast.Call(ast.Name('__vc_fstr__', ast.Load()), args, [])
    for y in ast.walk(call):
      if isinstance(y, (ast.expr, ast.stmt)) and not hasattr(y, 'lineno'): ast.copy_location(y, n)
    return ast.copy_location(call, n)

  def visit_ListComp(self, n): return self.comp(n, 'list')
  def visit_SetComp(self, n): return self.comp(n, 'set')
  def visit_GeneratorExp(self, n): return self.comp(n, 'gen')
  def visit_DictComp(self, n): return self.comp(n, 'dict')


def transform(module, tree):
  drop_misfits(module, tree)
  tree = _T(module).visit(tree)
  ast.fix_missing_locations(tree)
  return tree


# -- run time ------------------------------------------------------------------
class Pass:
  cut = False
  def __init__(self, it): self.it = it
  def __iter__(self): return iter(self.it)


class Cut:
  cut = True

  def __init__(self, module, ident, seq, spec, names):
    self.ident, self.seq, self.spec, self.names = ident, seq, spec, names
    self.n = seq.__vc_count__() if seq is not None else None
    self.state = 0
    self.vals = {}

  def __iter__(self): return self

  def _inv(self, tag, i, st):
    for name, f in self.spec.inv(i, self.n, st):
      obligation(f'loop {self.ident} {tag}: {name}', f, self.spec.hints)

  def _enter(self, i, outer):
    self.vals = self.spec.havoc(i, self.n, outer)
    for v in self.names: self.vals.setdefault(v, Poison(v))
    st = dict(outer); st.update(self.vals)
    for _, f in self.spec.inv(i, self.n, st): assume(f)

  def __next__(self):
    fr = sys._getframe(1)
    if self.state == 0:
      self.outer = dict(fr.f_locals)
      self._inv('invariant holds on entry', 0, self.outer)
      self.state = 1
      k = core.choose(2)
      if k == 0:
        self.i = fresh_int('it', 0)
        assume(self.i.t < term(self.n))
        self._enter(self.i, self.outer)
        return self.seq.__vc_get__(self.i)
      self._enter(wrap(term(self.n)), self.outer)
      raise StopIteration
    self._inv('invariant is preserved', self.i + 1, dict(fr.f_locals))
    raise PathEnd()

  def new(self, name):
    return self.vals[name]


class WhileCut(Cut):

  def __next__(self):
    fr = sys._getframe(1)
    if self.state == 0:
      self.outer = dict(fr.f_locals)
      self._inv('invariant holds on entry', None, self.outer)
      self.state = 1
      self._enter(None, self.outer)
      return None
    self._inv('invariant is preserved', None, dict(fr.f_locals))
    raise PathEnd()


def vc_loop(module, ident, it, names, outer):
  if hasattr(type(it), '__vc_count__'):
    n = it.__vc_count__()
    if isinstance(n, int) and n <= 8:
      return Pass([it.__vc_get__(j) for j in range(n)])
    spec = spec_of(module, ident)
    if spec is None:
      raise Unsupported(f'loop {ident} over a symbolic sequence has no contract')
    if outer:
      raise Unsupported(f'loop {ident} mutates {outer}, which its contract does not mention')
    return Cut(module, ident, it, spec, names)
  return Pass(it)


def vc_while(module, ident, names, outer):
  if outer: raise Unsupported(f'loop {ident} mutates {outer}, which its contract does not mention')
  return WhileCut(module, ident, None, SPECS[(module, ident)], names)


def vc_misfit(ident, test):
  if core.active(): raise Unsupported(f'loop {ident}: the function no longer has the loops its contracts were written for')
  return test


def snap(f):
  """The function with its closure frozen now (comprehensions are evaluated here
  lazily on symbolic sequences; the original evaluates them on the spot)."""
  if f is None or not isinstance(f, types.FunctionType) or not f.__closure__: return f
  def cell(c):
    try: return types.CellType(c.cell_contents)
    except ValueError: return c
  return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(c) for c in f.__closure__))


def vc_comp(kind, it, cond, *fs):
  if kind != 'gen' or hasattr(type(it), '__vc_comp__'):
    cond, fs = snap(cond), tuple(snap(f) for f in fs)
  if hasattr(type(it), '__vc_comp__'):
    r = it.__vc_comp__(kind, cond, *fs)
    if r is not NotImplemented: return r
  if kind == 'gen':
    f = fs[0]
    return (f(x) for x in it) if cond is None else (f(x) for x in it if cond(x))
  if kind == 'dict':
    k, v = fs
    return {k(x): v(x) for x in it} if cond is None else {k(x): v(x) for x in it if cond(x)}
  f = fs[0]
  if kind == 'list' and cond is not None and isinstance(it, range) and core.active() and not hasattr(core.cur(), 'in_merge'):
    gs = [(core.merge_bool(lambda x=x: cond(x)), x) for x in it]
    if any(not (z3.is_true(g) or z3.is_false(g)) for g, _ in gs):
      from vc import seqs
      return seqs.Guarded([(g, f(x)) for g, x in gs if not z3.is_false(g)])
    return [f(x) for g, x in gs if z3.is_true(g)]
  l = [f(x) for x in it] if cond is None else [f(x) for x in it if cond(x)]
  return l if kind == 'list' else set(l)


def vc_comp2(kind, a, sa, fb, sb, *fes):
  un = lambda f, s: f if s == 0 else vc_star(f, s)
  fb, fes = snap(fb), tuple(snap(f) for f in fes)
  fb = un(fb, sa)
  def inner(x, fe):
    return un(un(fe, sa)(x), sb)
  if kind == 'dict':
    from vc import seqs
    rows = []
    sym = hasattr(type(a), '__vc_comp2__')
    if sym: return a.__vc_comp2__(kind, fb, lambda x, y: (inner(x, fes[0])(y), inner(x, fes[1])(y)))
    for x in a:
      b = fb(x)
      if hasattr(type(b), '__vc_count__'): rows.append(seqs.asfam(b).map(lambda y, x=x: (inner(x, fes[0])(y), inner(x, fes[1])(y))))
      else: rows.append([(inner(x, fes[0])(y), inner(x, fes[1])(y)) for y in b])
    if all(isinstance(r, list) for r in rows): return {k: v for r in rows for k, v in r}
    return seqs.FamDict(rows)
  from vc import seqs
  f = lambda x, y: inner(x, fes[0])(y)
  if isinstance(a, seqs.SFam): r = a.product(fb, f)
  else:
    rows = []
    for x in a:
      b = fb(x)
      rows.append(seqs.asfam(b).map(lambda y, x=x: f(x, y)) if hasattr(type(b), '__vc_count__') else [f(x, y) for y in b])
    if all(isinstance(r, list) for r in rows):
      l = [v for r in rows for v in r]
      return l if kind in ('list', 'gen') else set(l)
    if len(rows) == 1: r = rows[0]
    else: raise Unsupported('comprehension over several symbolic ranges')
  if kind == 'gen' or kind == 'list': return r
  raise Unsupported('nested set comprehension')


def vc_fstr(*parts):
  if any(isinstance(p, core.SStr) for p in parts):
    r = ''
    for p in parts: r = r + (p if isinstance(p, (str, core.SStr)) else format(p))
    return r
  return ''.join([format(p) for p in parts])


def vc_star(f, n):
  f = snap(f)
  def g(x):
    x = tuple(x)
    if len(x) != n: raise ValueError('unpack')
    return f(*x)
  return g


loader.BUILTINS.update(__vc_loop__=vc_loop, __vc_while__=vc_while, __vc_comp__=vc_comp, __vc_comp2__=vc_comp2, __vc_star__=vc_star, __vc_fstr__=vc_fstr, __vc_misfit__=vc_misfit)
