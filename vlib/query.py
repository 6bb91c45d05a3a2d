"""Queries to the SMT solver."""
import math
import random
import time

import numpy as np
import z3

from vlib import ops
from vlib import sym
from vlib.sym import (BX, Poly, Rat, STATS, U, Unsupported, as_real, b_all,
                      b_and, b_any, b_atom, b_not, frac, kind, poly_of, rat,
                      same, to_z3)


class Inconclusive(Exception):
  """The solver gave no verdict."""


def solve(formulas, timeout_ms=60000, tactic=None):
  """Returns a model or None; raises Inconclusive."""
  s = z3.Then(*tactic).solver() if isinstance(tactic, (list, tuple)) else (
      z3.Tactic(tactic).solver() if tactic else z3.Solver())
  s.set('timeout', timeout_ms)
  for f in formulas:
    if isinstance(f, (BX, bool, np.bool_)):
      f = to_z3(f)
    s.add(f)
  t = time.time()
  r = s.check()
  STATS.solver_s += time.time() - t
  STATS.queries += 1
  if r == z3.unsat:
    STATS.unsat += 1
    return None
  if r == z3.sat:
    STATS.sat += 1
    return s.model()
  STATS.unknown += 1
  raise Inconclusive(f'solver: {s.reason_unknown()}')


class Under:
  """Decides conditions that the assumptions settle; others stay symbolic."""

  def __init__(self, assumptions):
    self.assumptions = list(assumptions)
    self.memo = {}

  def __call__(self, c):
    if not isinstance(c, BX):
      return c
    if c not in self.memo:
      if solve(self.assumptions + [b_not(c)]) is None:
        r = True
      elif solve(self.assumptions + [c]) is None:
        r = False
      else:
        r = c
      self.memo[c] = r
    return self.memo[c]


def bx_bool_model(m, b):
  """Value of a formula in a model (with completion)."""
  if isinstance(b, (bool, np.bool_)):
    return bool(b)
  return z3.is_true(m.eval(to_z3(b), model_completion=True))


def model_value(m, e):
  """Concrete value of a symbolic scalar in a model."""
  k = kind(e)
  if k in ('c', 'cb'):
    return e
  if k == 'b':
    return bx_bool_model(m, e)
  if k == 'u':
    for v, g in e.d.items():
      if bx_bool_model(m, g):
        return v
    raise Inconclusive('no member of a union selected')
  if k in ('p', 'q'):
    return z3_number(m.eval(as_real(e), model_completion=True))
  return z3_number(m.eval(e, model_completion=True))


def z3_number(v):
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_bv_value(v):
    return v.as_signed_long()
  if z3.is_rational_value(v):
    return float(v.as_fraction())
  if z3.is_algebraic_value(v):
    return float(v.approx(20).as_fraction())
  if z3.is_fp(v):
    v = z3.simplify(v)
    if v.isNaN():
      return math.nan
    if v.isInf():
      return -math.inf if v.isNegative() else math.inf
    r = z3.simplify(z3.fpToReal(v))
    f = float(r.as_fraction())
    return -0.0 if f == 0 and v.isNegative() else f
  if z3.is_true(v) or z3.is_false(v):
    return z3.is_true(v)
  raise Unsupported(f'model value {v}')


def _diff(a, b):
  return ops.sub(a, b)


class CloseQuery:
  """Accumulates |d| <= tol obligations over boxed symbols.

  Polynomial differences are decided in linear arithmetic: every monomial is
  relaxed to an independent variable bounded by the box. `unsat` means that no
  assignment within the box separates the two sides by more than the tolerance;
  `sat` is followed by a search for a concrete assignment.
  """

  def __init__(self, box=None, default_box=1.0, tol=1e-7, extra=()):
    self.box = box or {}
    self.default = default_box
    self.tol = tol
    self.items = []          # (label, d)
    self.failed = []         # labels that differ for every assignment
    self.extra = list(extra)
    self.general = []
    self.trivial = 0

  def bound(self, i):
    name = Poly.names[i]
    b = self.box.get(name)
    if b is None:
      b = self.box.get(name.split('[')[0], self.default)
    return b if isinstance(b, tuple) else (-b, b)

  def mag(self, i):
    lo, hi = self.bound(i)
    return max(abs(lo), abs(hi))

  def add(self, label, got, want):
    kg, kw = kind(got), kind(want)
    if kg in ('c', 'cb') and kw in ('c', 'cb'):
      g, w = float(got), float(want)
      if math.isnan(g) and math.isnan(w) or g == w:
        return
      if not (abs(g - w) <= self.tol):
        self.failed.append((label, g, w))
      return
    if 'opaque' in (kg, kw):
      self.failed.append((label, repr(got), repr(want)))
      return
    if kg in ('c', 'cb', 'p') and kw in ('c', 'cb', 'p'):
      for e, k in ((got, kg), (want, kw)):
        if k == 'c' and not math.isfinite(e):
          self.failed.append((label, repr(got), repr(want)))
          return
      d = poly_of(_diff(got, want))
      if not d.t:
        self.trivial += 1
        return
      self.items.append((label, d, 1.0))
      return
    if kg in ('c', 'cb', 'p', 'q') and kw in ('c', 'cb', 'p', 'q'):
      d = _diff(got, want)
      if not isinstance(d, Rat):
        d = poly_of(d)
        if d.t:
          self.items.append((label, d, 1.0))
        return
      # |n/d| <= tol wherever |d| >= scale (the stated non-degeneracy margin)
      scale = self.box.get('__den__', 1e-3)
      self.items.append((label, d.n, scale))
      return
    # unions and z3 terms
    self.general.append((label, got, want))

  def _lra(self, items):
    fs, ys = [], {}
    mons = set()
    for _, d, scale in items:
      mons.update(m for m in d.t if m)
    cons = []
    for m in mons:
      y = z3.Real('m!' + '_'.join(map(str, m)))
      ys[m] = y
      lo, hi = self.mono_bounds(m)
      cons.append(y >= rat(lo))
      cons.append(y <= rat(hi))
    alts = []
    for _, d, scale in items:
      e = z3.Sum([rat(c) * ys[m] if m else rat(c) for m, c in d.t.items()])
      t = rat(self.tol * scale)
      alts.append(z3.Or(e > t, e < -t))
    return solve(cons + [z3.Or(alts)])

  def mono_bounds(self, m):
    lo, hi = 1.0, 1.0
    i = 0
    m = list(m)
    while i < len(m):
      j = i
      while j < len(m) and m[j] == m[i]:
        j += 1
      a, b = self.bound(m[i])
      n = j - i
      cands = [a ** n, b ** n]
      l, h = min(cands), max(cands)
      if n % 2 == 0 and a < 0 < b:
        l = 0.0
      ps = [lo * l, lo * h, hi * l, hi * h]
      lo, hi = min(ps), max(ps)
      i = j
    return lo, hi

  def chunks(self, chunk, terms=500):
    """Groups of up to chunk items with up to terms monomials together."""
    group, n = [], 0
    for it in self.items:
      k = len(it[1].t)
      if group and (len(group) >= chunk or n + k > terms):
        yield group
        group, n = [], 0
      group.append(it)
      n += k
    if group:
      yield group

  def _split(self, item, terms=400):
    """Decides a long sum in parts whose bounds add up to the tolerance.

    True if every part is shown to stay within its share.
    """
    label, d, scale = item
    mons = sorted(d.t, key=len)
    parts, total = [], 0.0
    for i in range(0, len(mons), terms):
      t = {m: d.t[m] for m in mons[i:i + terms]}
      share = sum(abs(float(c)) * max(map(abs, self.mono_bounds(m)))
                  for m, c in t.items()) * 1.001 + 1e-300
      parts.append((Poly(t), share))
      total += share
    if total > self.tol * scale:
      return False
    return all(self._lra([(label, p, share / self.tol)]) is None
               for p, share in parts)

  def decide(self, chunk=64):
    """Returns None, or (label, env) with env: variable name -> float."""
    if self.failed:
      return self.failed[0][0], {}
    for items in self.chunks(chunk):
      long = len(items) == 1 and len(items[0][1].t) > 800
      if long and self._split(items[0]):
        continue
      if not long and self._lra(items) is None:
        continue
      for it in items:
        if long:
          env = self.witness(it, ask=False)
          if env is not None:
            return it[0], env
        if self._lra([it]) is None:
          continue
        env = self.witness(it)
        if env is not None:
          return it[0], env
    for label, got, want in self.general:
      t = rat(self.tol)
      fs = list(self.extra)
      d = as_real(got) - as_real(want)
      fs.append(z3.Or(d > t, d < -t))
      for i in sorted(vars_of(got) | vars_of(want)):
        lo, hi = self.bound(i)
        fs += [sym.real_var(i) >= rat(lo), sym.real_var(i) <= rat(hi)]
      m = solve(fs)
      if m is not None:
        env = {Poly.names[i]: z3_number(m.eval(sym.real_var(i), True))
               for i in vars_of(got) | vars_of(want)}
        env['__model__'] = m
        return label, env
    return None

  def witness(self, item, ask=True):
    label, d, scale = item
    tol = self.tol * scale
    vs = d.vars()
    best, bestv = None, tol
    rng = random.Random(1)
    cands = []
    m = max(d.t, key=lambda k: abs(d.t[k]))
    cands.append({i: (self.bound(i)[1] if i in m else 0.0) for i in vs})
    for _ in range(60):
      cands.append({i: rng.choice(self.bound(i)) for i in vs})
      cands.append({i: rng.uniform(*self.bound(i)) for i in vs})
      cands.append({i: rng.choice((self.bound(i)[1], 0.0)) for i in vs})
    for env in cands:
      env = {i: min(max(v, self.bound(i)[0]), self.bound(i)[1])
             for i, v in env.items()}
      v = abs(float(d.eval(env)))
      if v > bestv:
        best, bestv = env, v
    if best is None and not ask:
      return None
    if best is None:
      # ask the nonlinear solver
      e = sym.poly_z3(d)
      fs = [z3.Or(e > rat(tol), e < rat(-tol))]
      for i in vs:
        lo, hi = self.bound(i)
        fs += [sym.real_var(i) >= rat(lo), sym.real_var(i) <= rat(hi)]
      mod = solve(fs, timeout_ms=20000)
      if mod is None:
        return None
      best = {i: z3_number(mod.eval(sym.real_var(i), True)) for i in vs}
    return {Poly.names[i]: float(v) for i, v in best.items()}


def vars_of(e):
  k = kind(e)
  if k == 'p':
    return set(e.vars())
  if k == 'q':
    return set(e.n.vars()) | set(e.d.vars())
  if k == 'u':
    r = set()
    for v in e.d:
      r |= vars_of(v)
    return r
  if k in ('r', 'i'):
    out, seen, stack = set(), set(), [e]
    while stack:
      x = stack.pop()
      if x.get_id() in seen:
        continue
      seen.add(x.get_id())
      if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        i = Poly.ids.get(x.decl().name())
        if i is not None:
          out.add(i)
      stack.extend(x.children())
    return out
  return set()
