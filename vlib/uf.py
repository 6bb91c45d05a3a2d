"""Real arithmetic with uninterpreted functions.

Scalars are polynomials over input symbols and over interned terms: every
application of a function (exp, tanh, reciprocal, maximum, ...) to canonical
arguments is one symbol, and sums are named before they are multiplied, so that
polynomials stay small.  Equal polynomials are equal for every interpretation of
the functions (congruence); what differs is put to the solver with the
definitions of the names, functions uninterpreted.
"""
from fractions import Fraction

import jax
import numpy as np
import z3

from vlib import jsym, ops, sym
from vlib.jsym import CONC, CONCRETE_FN, Interp, RULES, elementwise, to_obj
from vlib.query import Inconclusive, solve
from vlib.sym import BX, Poly, STATS, Unsupported, b_var, kind, p_add, p_scale

TERMS = {}          # key -> symbol
DEFS = {}           # variable id -> key
ATOMS = {}          # comparison key -> formula


def key(p):
  """Canonical key of a scalar."""
  p = sym.poly_of(p) if not isinstance(p, BX) else p
  return p if isinstance(p, (Poly, BX)) else p


def term(name, *args):
  """The symbol of a function application."""
  k = (name,) + tuple(args)
  v = TERMS.get(k)
  if v is None:
    v = TERMS[k] = Poly.var(f'@{name}{len(TERMS)}')
    DEFS[v.vars()[0]] = k
  return v


def lead(p):
  """Coefficient that makes a polynomial monic in its first monomial."""
  return p.t[max(p.t)]


def named(p):
  """p as a monomial: (coefficient, symbol or product)."""
  if len(p.t) <= 1:
    return p
  c = lead(p)
  return p_scale(term('sum', p_scale(p, 1 / Fraction(c))), c)


def is_real(x):
  return kind(x) in ('p', 'c', 'cb')


def real(x):
  if not is_real(x):
    if kind(x) == 'u':
      r = Poly.const(0)
      for v, g in sym.u_items(x):
        r = v if r is None else choose(g, v, r)
      return sym.poly_of(r)
    raise Unsupported(f'{kind(x)} in real arithmetic')
  return sym.poly_of(x)


def out(p):
  return p.cval() if p.is_const() else p


def mul(x, y):
  x, y = real(x), real(y)
  if x.is_const() or y.is_const():
    return out(sym.p_mul(x, y))
  return out(sym.p_mul(named(x), named(y)))


def recip(y):
  y = real(y)
  if y.is_const():
    if y.cval() == 0:
      raise Unsupported('division by zero')
    return 1 / Fraction(y.cval())
  c = lead(y)
  y = p_scale(y, 1 / Fraction(c))
  (m, _), = named(y).t.items()
  r = Poly.const(1 / Fraction(c))
  for i in m:
    k = DEFS.get(i)
    r = sym.p_mul(
        r, k[1] if k and k[0] == 'recip' else term('recip', Poly({(i,): 1})))
  return r


def div(x, y):
  return mul(x, recip(y))


def power(x, n):
  if n < 0:
    return recip(power(x, -n))
  r = 1
  for _ in range(n):
    r = mul(r, x)
  return r


POSITIVE = ('exp', 'logistic', 'cosh')


def nonneg_monomial(p):
  """Whether p is a product that no interpretation makes negative."""
  if len(p.t) != 1:
    return False
  (m, c), = p.t.items()
  odd = {i for i in m if m.count(i) % 2}
  def ok(i):
    k = DEFS.get(i)
    return k is not None and (
        k[0] in POSITIVE + ('sqrt', 'abs') or
        (k[0] == 'recip' and nonneg_monomial(k[1])))
  return c > 0 and all(ok(i) for i in odd)


def fn(name, x):
  if kind(x) in ('c', 'cb'):
    v = CONCRETE_FN[name](float(x)) if name in CONCRETE_FN else abs(x)
    return Fraction(v) if np.isfinite(v) else v
  x = real(x)
  if name == 'rsqrt':
    return recip(term('sqrt', x))
  if name == 'abs' and nonneg_monomial(x):
    return out(x)
  if name in ('log', 'exp') and len(x.t) == 1:
    (m, c), = x.t.items()
    k = DEFS.get(m[0]) if len(m) == 1 and c == 1 else None
    if k and k[0] == {'log': 'exp', 'exp': 'log'}[name]:
      return out(k[1])
  return term(name, x)


def extremum(name):
  def f(*xs):
    flat, consts = set(), []
    for x in xs:
      if kind(x) in ('c', 'cb'):
        consts.append(x)
        continue
      x = real(x)
      (m, c), = list(x.t.items())[:1] if len(x.t) == 1 else ((None, None),)
      k = DEFS.get(m[0]) if m is not None and len(m) == 1 and c == 1 else None
      if k and k[0] == name:
        flat |= k[1]
      else:
        flat.add(x)
    if consts:
      c = (max if name == 'max' else min)(consts)
      if not np.isfinite(float(c)):
        if (c > 0) == (name == 'max') and flat:
          return c
      else:
        flat.add(Poly.const(c))
    flat = frozenset(flat)
    if len(flat) == 1:
      return out(next(iter(flat)))
    return term(name, flat)
  return f


def choose(c, t, f):
  if kind(c) in ('c', 'cb'):
    return t if c else f
  if not isinstance(c, BX):
    raise Unsupported('selection by a symbolic number')
  if isinstance(t, BX) or isinstance(f, BX) or isinstance(t, (bool, np.bool_)):
    return ops.ite(c, t, f)
  t, f = real(t), real(f)
  return out(t) if t == f else term('ite', c, t, f)


def atom(op, x, y):
  """Comparison as an interned formula: d > 0, d >= 0 or d == 0."""
  if not is_real(x) or not is_real(y):
    return getattr(ops, op)(x, y)
  if op in ('lt', 'le'):
    return atom({'lt': 'gt', 'le': 'ge'}[op], y, x)
  if op == 'ne':
    return sym.b_not(atom('eq', x, y))
  for a, inv in ((x, 1), (y, -1)):
    if kind(a) == 'c' and not np.isfinite(float(a)):
      s = inv * (1 if a > 0 else -1)
      return op != 'eq' and s > 0
  d = p_add(real(x), p_scale(real(y), -1))
  if d.is_const():
    c = d.cval()
    return bool(c > 0 if op == 'gt' else c >= 0 if op == 'ge' else c == 0)
  c = lead(d)
  d = p_scale(d, 1 / Fraction(abs(c) if op != 'eq' else c))
  if op == 'ge':
    return sym.b_not(atom('gt', 0, d))
  k = (op, d)
  if k not in ATOMS:
    ATOMS[k] = b_var(f'@{op}{len(ATOMS)}')
  return ATOMS[k]


NAMES = ('exp', 'log', 'sin', 'cos', 'tanh', 'logistic', 'log1p', 'expm1',
         'erf', 'erf_inv', 'cbrt', 'sinh', 'cosh', 'atan', 'tan', 'sqrt',
         'rsqrt', 'floor', 'ceil', 'round')


def _lift(f, *xs):
  return elementwise(f, *[to_obj(x) for x in xs])


def _is_float(eqn, out_=False):
  v = eqn.outvars[0] if out_ else eqn.invars[-1]
  dt = jsym.np_dtype(v.aval)
  return dt is not None and dt.kind in 'fV'


def _only_floats(name, f):
  old = RULES.get(name)
  def rule(it, eqn, *xs, **params):
    if not _is_float(eqn):
      return old(it, eqn, *xs, **params)
    return f(it, eqn, *xs, **params)
  return rule


UF = {}


def _put(name, f):
  UF[name] = _only_floats(name, f)


_put('mul', lambda it, e, x, y, **_: [_lift(mul, x, y)])
_put('div', lambda it, e, x, y, **_: [_lift(div, x, y)])
_put('max', lambda it, e, x, y, **_: [_lift(extremum('max'), x, y)])
_put('min', lambda it, e, x, y, **_: [_lift(extremum('min'), x, y)])
_put('abs', lambda it, e, x, **_: [_lift(lambda a: fn('abs', a), x)])
_put('square', lambda it, e, x, **_: [_lift(lambda a: mul(a, a), x)])
_put('integer_pow', lambda it, e, x, y, **_: [_lift(lambda a: power(a, y), x)])
_put('select_n', lambda it, e, w, *cs, **_: [
    _lift(lambda c, f, t: choose(c, t, f), w, *cs)] if len(cs) == 2 else
     RULES['select_n'](it, e, w, *cs))
_put('clamp', lambda it, e, lo, x, hi, **_: [_lift(
    lambda l, a, h: extremum('min')(extremum('max')(a, l), h), lo, x, hi)])
for _n in NAMES:
  _put(_n, lambda it, e, x, n=_n, **_: [_lift(lambda a: fn(n, a), x)])
for _n in ('gt', 'ge', 'lt', 'le', 'eq', 'ne'):
  _put(_n, lambda it, e, x, y, n=_n, **_: [_lift(
      lambda a, b: atom(n, a, b), x, y)])
for _n in ('max', 'min'):
  _put('reduce_' + _n, lambda it, e, x, n=_n, axes=None, **_: [
      jsym._reduce(x, axes, lambda v: extremum(n)(*v))])
_put('reduce_prod', lambda it, e, x, axes=None, **_: [
    jsym._reduce(x, axes, lambda v: jsym.functools.reduce(mul, v, 1))])


def dot(xs, ys):
  r = Poly.const(0)
  for x, y in zip(xs, ys):
    r = p_add(r, sym.poly_of(mul(x, y)))
  return out(r)


def _dot_general(it, eqn, x, y, *, dimension_numbers, **_):
  (cx, cy), (bx, by) = dimension_numbers
  x, y = to_obj(x), to_obj(y)
  fx = [d for d in range(x.ndim) if d not in cx and d not in bx]
  fy = [d for d in range(y.ndim) if d not in cy and d not in by]
  X = np.transpose(x, list(bx) + fx + list(cx))
  Y = np.transpose(y, list(by) + fy + list(cy))
  shp = lambda a, ds: [a.shape[d] for d in ds]
  size = lambda s: int(np.prod(s, dtype=int))
  B, M, N, K = (size(s) for s in (shp(x, bx), shp(x, fx), shp(y, fy), shp(x, cx)))
  X, Y = X.reshape(B, M, K), Y.reshape(B, N, K)
  res = np.empty((B, M, N), dtype=object)
  for b, m, n in np.ndindex(B, M, N):
    res[b, m, n] = dot(X[b, m], Y[b, n])
  return [res.reshape(shp(x, bx) + shp(x, fx) + shp(y, fy))]


_put('dot_general', _dot_general)


def _pow(it, eqn, x, y, **_):
  def f(a, b):
    if type(b) in CONC or isinstance(b, Fraction):
      if float(b).is_integer() and abs(b) < 64:
        return power(a, int(b))
      if float(b) in (0.5, -0.5):
        return fn('sqrt' if b > 0 else 'rsqrt', a)
    raise Unsupported('power with a symbolic exponent')
  return [_lift(f, x, y)]


_put('pow', _pow)


def _window(f, init):
  def rule(it, eqn, x, *, window_dimensions, window_strides, padding,
           base_dilation, window_dilation, **_):
    if any(d != 1 for d in base_dilation + window_dilation):
      raise Unsupported('dilated window')
    x = to_obj(x)
    shape = tuple((n + lo + hi - w) // s + 1 for n, w, s, (lo, hi) in zip(
        x.shape, window_dimensions, window_strides, padding))
    res = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      vals = []
      for j in np.ndindex(*window_dimensions):
        at = tuple(a * s + b - lo for a, b, s, (lo, _) in zip(
            i, j, window_strides, padding))
        if all(0 <= a < n for a, n in zip(at, x.shape)):
          vals.append(x[at])
      res[i] = f(vals) if vals else init
    return [res]
  return rule


UF['reduce_window_sum'] = _window(lambda v: jsym.functools.reduce(ops.add, v), 0)
UF['reduce_window_max'] = _window(lambda v: extremum('max')(*v), -np.inf)
UF['reduce_window_min'] = _window(lambda v: extremum('min')(*v), np.inf)


class UFInterp(Interp):
  rules = {**RULES, **UF}


def call(f, *args, hooks=None):
  """jsym.call with functions uninterpreted, in exact arithmetic."""
  old = jsym.INTERP
  jsym.INTERP = UFInterp
  try:
    return jsym.call(f, *args, hooks=hooks)
  finally:
    jsym.INTERP = old


# --------------------------------------------------------------------------
# Decisions


FUNCS = {}


def definitions(ids):
  """Definitions of the names among variables, and of all they use."""
  seen, todo, out_ = set(), list(ids), []
  def add_bx(b):
    stack, done = [b], set()
    while stack:
      x = stack.pop()
      if not isinstance(x, BX) or x.id in done:
        continue
      done.add(x.id)
      if x.op == 'v':
        for (op, d), a in ATOMS.items():
          if a is x:
            todo.extend(d.vars())
            z = sym.as_real(d)
            out_.append(sym.to_z3(x) == (z > 0 if op == 'gt' else z == 0))
      else:
        stack.extend(x.args)
  while todo:
    i = todo.pop()
    if i in seen:
      continue
    seen.add(i)
    k = DEFS.get(i)
    if k is None:
      continue
    v = sym.as_real(Poly({(i,): 1}))
    args = [a for b in k[1:] for a in (
        sorted(b, key=lambda p: sorted(p.t)) if isinstance(b, frozenset) else [b])]
    for a in args:
      if isinstance(a, Poly):
        todo.extend(a.vars())
      else:
        add_bx(a)
    if k[0] == 'sum':
      out_.append(v == sym.as_real(k[1]))
    elif k[0] == 'recip':
      out_.append(v * sym.as_real(k[1]) == 1)
    elif k[0] in ('max', 'min'):
      zs = [sym.as_real(a) for a in args]
      out_.append(z3.Or(*[v == z for z in zs]))
      out_ += [v >= z if k[0] == 'max' else v <= z for z in zs]
    elif k[0] == 'ite':
      out_.append(v == z3.If(sym.to_z3(k[1]), sym.as_real(k[2]), sym.as_real(k[3])))
    elif k[0] == 'abs':
      z = sym.as_real(k[1])
      out_.append(v == z3.If(z >= 0, z, -z))
    else:
      f = FUNCS.setdefault(k[0], z3.Function(k[0], z3.RealSort(), z3.RealSort()))
      out_.append(v == f(sym.as_real(k[1])))
      if k[0] in POSITIVE:
        out_.append(v > 0)
      elif k[0] == 'sqrt':
        out_.append(v >= 0)
      elif k[0] in ('tanh', 'erf', 'sin', 'cos'):
        out_ += [v <= 1, v >= -1]
  return out_


def equal(h, got, want, run, label=''):
  """Decides that two lists of arrays of terms agree."""
  got, want = list(got), list(want)
  diffs, n = [], 0
  if len(got) != len(want):
    h._replay(run, {}, f'{label} number of results')
  for k, (g, w) in enumerate(zip(got, want)):
    g, w = to_obj(g), to_obj(w)
    if g.shape != w.shape:
      h._replay(run, {}, f'{label} shape {g.shape} instead of {w.shape}')
    for i in np.ndindex(*g.shape):
      d = p_add(real(g[i]), p_scale(real(w[i]), -1))
      n += 1
      if d.t:
        diffs.append(((k,) + i, d))
  STATS.obligations += n
  if not diffs:
    solve([False])
  for where, d in diffs:
    if d.is_const():
      solve([True])
      h._replay(run, {}, f'{label} component {where}', (3., 3., 6., 6.))
    try:
      if solve(definitions(d.vars()) + [sym.as_real(d) != 0],
               timeout_ms=20000) is None:
        continue
    except Inconclusive:
      pass
    h._replay(run, {}, f'{label} component {where}', (3., 3., 6., 6.))
  h.sample(label=label, components=n, cancelled_exactly=n - len(diffs),
           terms=len(TERMS))


def nonnegative(h, terms, run, facts=(), label=''):
  """Decides that no term is negative for any interpretation."""
  for i, p in enumerate(terms):
    p = real(p)
    STATS.obligations += 1
    squares = all(c > 0 and len(m) % 2 == 0 and m[::2] == m[1::2]
                  for m, c in p.t.items())
    # (a sum of squares needs no definitions)
    defs = [] if squares else definitions(p.vars())
    if solve(defs + list(facts) + [sym.as_real(p) < 0],
             timeout_ms=60000) is not None:
      h._replay(run, {}, f'{label} component {i} may be negative')


def support(terms):
  """Names of the input symbols that terms are made of."""
  seen, todo, names = set(), [], set()
  for p in terms:
    todo += real(p).vars()
  while todo:
    i = todo.pop()
    if i in seen:
      continue
    seen.add(i)
    k = DEFS.get(i)
    if k is None:
      names.add(Poly.names[i])
      continue
    for b in k[1:]:
      for a in b if isinstance(b, frozenset) else [b]:
        if isinstance(a, Poly):
          todo += a.vars()
        elif isinstance(a, BX):
          stack = [a]
          while stack:
            x = stack.pop()
            if isinstance(x, BX) and x.op == 'v':
              for (_, d), c in ATOMS.items():
                if c is x:
                  todo += d.vars()
            elif isinstance(x, BX):
              stack += x.args
  return names


def clear():
  TERMS.clear()
  DEFS.clear()
  ATOMS.clear()
