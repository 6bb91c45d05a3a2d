"""Symbolic scalars.

A symbolic array is a numpy object array of scalars, each of which is one of
  * a python bool / int / float / Fraction    a concrete value
  * BX        a hash-consed boolean formula over decision variables and z3 atoms
  * U         a guarded union {concrete value or opaque atom: BX}
  * Poly      a polynomial over real-valued (or ring-valued) input symbols
  * z3 terms  of sort Int, Real, BitVec or FloatingPoint
Scalar operations below dispatch on these kinds.
"""
from fractions import Fraction
import itertools
import math
import time

import numpy as np
import z3


class Unsupported(Exception):
  """The code left the fragment that the engine can encode."""


class Stats:
  def __init__(self):
    self.queries = 0
    self.sat = 0
    self.unsat = 0
    self.unknown = 0
    self.solver_s = 0.0
    self.prims = 0            # symbolically executed primitive applications
    self.prim_names = set()
    self.paths = 0            # host-code paths explored
    self.branches = 0         # host-code branch decisions
    self.validated = 0        # concrete runs compared with the encoding
    self.functions = set()
    self.bounds = []
    self.samples = []
    self.harnesses = 0
    self.obligations = 0      # component obligations put to the solver
    self.witnesses = 0        # reachability twins that came back satisfiable
    self.assumptions = []

  def merge(self, d):
    for k in ('queries', 'sat', 'unsat', 'unknown', 'solver_s', 'prims',
              'paths', 'branches', 'validated', 'harnesses', 'witnesses',
              'obligations'):
      setattr(self, k, getattr(self, k) + d[k])
    for k in ('prim_names', 'functions'):
      getattr(self, k).update(d[k])
    for k in ('bounds', 'samples', 'assumptions'):
      for x in d[k]:
        if x not in getattr(self, k):
          getattr(self, k).append(x)

  def as_dict(self):
    return {k: (sorted(v) if isinstance(v, set) else v)
            for k, v in self.__dict__.items()}


STATS = Stats()


# --------------------------------------------------------------------------
# Boolean formulas


class BX:
  """Hash-consed boolean node. op in {'T','F','v','n','a','o','z'}."""
  __slots__ = ('op', 'args', 'id', '_z3', 'neg')
  table = {}
  count = 0

  def __init__(self, op, args):
    self.op = op
    self.args = args
    BX.count += 1
    self.id = BX.count
    self._z3 = None
    self.neg = None

  def __repr__(self):
    return f'BX{self.id}:{self.op}'

  def __bool__(self):
    raise Unsupported('truth value of a symbolic boolean')

  def __and__(self, o):
    return b_and(self, o)

  def __or__(self, o):
    return b_or(self, o)

  def __invert__(self):
    return b_not(self)

  def __hash__(self):
    return self.id

  def __eq__(self, o):
    return self is o


def _mk(op, args):
  k = (op, args)
  n = BX.table.get(k)
  if n is None:
    n = BX.table[k] = BX(op, args)
  return n


_var_counter = itertools.count()


def b_var(name=None):
  return _mk('v', (name or f'b!{next(_var_counter)}',))


def b_atom(e):
  """A z3 boolean term as a leaf."""
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  k = ('z', (e.get_id(),))
  n = BX.table.get(k)
  if n is None:
    n = BX.table[k] = BX('z', (e.get_id(),))
    n._z3 = e
  return n


def b_not(a):
  if a is True:
    return False
  if a is False:
    return True
  if isinstance(a, (bool, np.bool_)):
    return not a
  if a.neg is None:
    if a.op == 'n':
      a.neg = a.args[0]
    else:
      a.neg = _mk('n', (a,))
      a.neg.neg = a
  return a.neg


def b_and(a, b):
  if a is True:
    return b
  if b is True:
    return a
  if a is False or b is False:
    return False
  if not isinstance(a, BX):
    return b if a else False
  if not isinstance(b, BX):
    return a if b else False
  if a is b:
    return a
  if b_not(a) is b:
    return False
  # absorption with one level of structure
  if a.op == 'a' and (b is a.args[0] or b is a.args[1]):
    return a
  if b.op == 'a' and (a is b.args[0] or a is b.args[1]):
    return b
  if a.op == 'o' and (b is a.args[0] or b is a.args[1]):
    return b
  if b.op == 'o' and (a is b.args[0] or a is b.args[1]):
    return a
  na, nb = b_not(a), b_not(b)
  if a.op == 'a' and (nb is a.args[0] or nb is a.args[1]):
    return False
  if b.op == 'a' and (na is b.args[0] or na is b.args[1]):
    return False
  if a.id > b.id:
    a, b = b, a
  return _mk('a', (a, b))


def b_or(a, b):
  if a is False:
    return b
  if b is False:
    return a
  if a is True or b is True:
    return True
  if not isinstance(a, BX):
    return True if a else b
  if not isinstance(b, BX):
    return True if b else a
  if a is b:
    return a
  if b_not(a) is b:
    return True
  if a.op == 'o' and (b is a.args[0] or b is a.args[1]):
    return a
  if b.op == 'o' and (a is b.args[0] or a is b.args[1]):
    return b
  if a.op == 'a' and (b is a.args[0] or b is a.args[1]):
    return b
  if b.op == 'a' and (a is b.args[0] or a is b.args[1]):
    return a
  if a.id > b.id:
    a, b = b, a
  return _mk('o', (a, b))


def b_xor(a, b):
  return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def b_ite(c, a, b):
  return b_or(b_and(c, a), b_and(b_not(c), b))


def b_all(xs):
  r = True
  for x in xs:
    r = b_and(r, x)
  return r


def b_any(xs):
  r = False
  for x in xs:
    r = b_or(r, x)
  return r


def to_z3(a):
  """BX to z3, iteratively and memoised on the node."""
  if isinstance(a, (bool, np.bool_)):
    return z3.BoolVal(bool(a))
  if a._z3 is not None:
    return a._z3
  stack = [a]
  while stack:
    n = stack[-1]
    if n._z3 is not None:
      stack.pop()
      continue
    if n.op == 'v':
      n._z3 = z3.Bool(n.args[0])
      stack.pop()
      continue
    pend = [x for x in n.args if x._z3 is None]
    if pend:
      stack.extend(pend)
      continue
    zs = [x._z3 for x in n.args]
    n._z3 = (z3.Not(zs[0]) if n.op == 'n' else
             z3.And(*zs) if n.op == 'a' else z3.Or(*zs))
    stack.pop()
  return a._z3


def is_sym_bool(x):
  return isinstance(x, BX)


def is_concrete(x):
  return isinstance(x, (bool, int, float, Fraction, np.generic))


# --------------------------------------------------------------------------
# Polynomials


# In exact mode floating point constants enter polynomials as rationals.
EXACT = False


def set_exact(on):
  global EXACT
  EXACT = on


class Poly:
  """Polynomial with monomials as sorted tuples of variable ids."""
  __slots__ = ('t', '_h')
  names = []        # variable id -> name
  ids = {}

  def __init__(self, t):
    self.t = t
    self._h = None

  @staticmethod
  def var(name):
    i = Poly.ids.get(name)
    if i is None:
      i = Poly.ids[name] = len(Poly.names)
      Poly.names.append(name)
    return Poly({(i,): 1})

  @staticmethod
  def const(c):
    if EXACT and isinstance(c, float):
      c = Fraction(c)
    return Poly({(): c} if c != 0 else {})

  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  def cval(self):
    return self.t.get((), 0)

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.t.items()))
    return self._h

  def __eq__(self, o):
    return isinstance(o, Poly) and self.t == o.t

  def __repr__(self):
    if not self.t:
      return 'Poly(0)'
    parts = []
    for m, c in list(self.t.items())[:8]:
      parts.append(f'{c}' + ''.join('*' + Poly.names[i] for i in m))
    return 'Poly(' + ' + '.join(parts) + (
        ' + ...' if len(self.t) > 8 else '') + ')'

  def degree(self):
    return max((len(m) for m in self.t), default=0)

  def vars(self):
    return sorted({i for m in self.t for i in m})

  def eval(self, env):
    """Evaluates with env: variable id -> number."""
    s = 0
    for m, c in self.t.items():
      p = c
      for i in m:
        p = p * env[i]
      s = s + p
    return s


def p_add(x, y):
  if len(x.t) < len(y.t):
    x, y = y, x
  t = dict(x.t)
  for m, c in y.t.items():
    d = t.get(m)
    if d is None:
      t[m] = c
    else:
      d = d + c
      if d == 0:
        del t[m]
      else:
        t[m] = d
  return Poly(t)


def p_scale(x, k):
  if k == 0:
    return Poly({})
  if k == 1:
    return x
  if EXACT and isinstance(k, float):
    k = Fraction(k)
  return Poly({m: c * k for m, c in x.t.items()})


def p_mul(x, y):
  if x.is_const():
    return p_scale(y, x.cval())
  if y.is_const():
    return p_scale(x, y.cval())
  t = {}
  for m, c in x.t.items():
    for n, d in y.t.items():
      k = tuple(sorted(m + n)) if m and n else (m or n)
      v = t.get(k)
      t[k] = c * d if v is None else v + c * d
  return Poly({m: c for m, c in t.items() if c != 0})


def poly_of(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, np.generic):
    x = x.item()
  return Poly.const(x)


P_ONE = Poly({(): 1})


class Rat:
  """Quotient of two polynomials; the denominator is assumed non-zero."""
  __slots__ = ('n', 'd')

  def __init__(self, n, d):
    self.n = n
    self.d = d

  def __repr__(self):
    return f'({self.n})/({self.d})'

  def __hash__(self):
    return hash((self.n, self.d))

  def __eq__(self, o):
    return isinstance(o, Rat) and self.n == o.n and self.d == o.d


def _uni(p):
  """Dense coefficients of a univariate polynomial, or None."""
  vs = {i for m in p.t for i in m}
  if len(vs) > 1:
    return None, None
  out = [Fraction(0)] * (1 + max((len(m) for m in p.t), default=0))
  for m, c in p.t.items():
    out[len(m)] = Fraction(c)
  return (next(iter(vs)) if vs else None), out


def _udivmod(a, b):
  a = list(a)
  q = [Fraction(0)] * max(len(a) - len(b) + 1, 1)
  while len(a) >= len(b) and any(a):
    k = len(a) - len(b)
    f = a[-1] / b[-1]
    q[k] = f
    for i, c in enumerate(b):
      a[i + k] -= f * c
    while a and a[-1] == 0:
      a.pop()
  return q, a


def _ugcd(a, b):
  while b and any(b):
    _, r = _udivmod(a, b)
    if r:
      lead = r[-1]
      r = [c / lead for c in r]
    a, b = b, r
  return a


def _cancel(n, d):
  """Cancels the common factor of univariate numerator and denominator."""
  v, a = _uni(n)
  w, b = _uni(d)
  if a is None or b is None or (v is not None and v != w):
    return n, d
  if v is None:
    return n, d
  g = _ugcd(a, b) if len(a) >= len(b) else _ugcd(b, a)
  if len(g) > 1:
    a, _ = _udivmod(a, g)
    b, _ = _udivmod(b, g)
  f = next(c for c in reversed(b) if c)
  mk = lambda cs: Poly({(w,) * k: c / f for k, c in enumerate(cs) if c})
  return mk(a), mk(b)


def q_make(n, d):
  if not n.t:
    return 0
  if EXACT and not d.is_const():
    n, d = _cancel(n, d)
  if d.is_const():
    c = d.cval()
    if c == 1:
      return n.cval() if n.is_const() else n
    m, _ = math.frexp(abs(float(c)))
    if isinstance(c, Fraction) or m == 0.5:
      p = p_scale(n, 1 / c)
      return p.cval() if p.is_const() else p
    p = Poly({k: v / c for k, v in n.t.items()})
    return p.cval() if p.is_const() else p
  if len(n.t) == len(d.t):      # n = c * d
    it = iter(d.t.items())
    m0, c0 = next(it)
    if m0 in n.t:
      r0, den = n.t[m0], c0
      if all(m in n.t and n.t[m] * den == r0 * c for m, c in it):
        return (r0 / den if (isinstance(r0, Fraction)
                             or isinstance(den, Fraction)) else
                float(frac(r0) / frac(den)))
  if len(d.t) == 1:             # cancel a monomial denominator
    (m, c), = d.t.items()
    m = list(m)
    changed = False
    for v in list(m):
      if all(v in k for k in n.t):
        t = {}
        for k, cc in n.t.items():
          k = list(k)
          k.remove(v)
          t[tuple(k)] = cc
        n = Poly(t)
        m.remove(v)
        changed = True
    if changed:
      return q_make(n, Poly({tuple(m): c}))
  return Rat(n, d)


def q_add(a, b):
  if a.d == b.d:
    return q_make(p_add(a.n, b.n), a.d)
  if a.d.is_const():
    return q_make(p_add(p_mul(a.n, b.d), p_scale(b.n, a.d.cval())),
                  p_scale(b.d, a.d.cval()))
  if b.d.is_const():
    return q_add(b, a)
  return q_make(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))


def q_mul(a, b):
  if a.n == b.d:
    return q_make(b.n, a.d)
  if b.n == a.d:
    return q_make(a.n, b.d)
  return q_make(p_mul(a.n, b.n), p_mul(a.d, b.d))


def q_div(a, b):
  if a.d == b.d:
    return q_make(a.n, b.n)
  if a.n == b.n:
    return q_make(b.d, a.d)
  return q_make(p_mul(a.n, b.d), p_mul(a.d, b.n))


def frac(c):
  if isinstance(c, Fraction):
    return c
  if isinstance(c, (int, np.integer, bool, np.bool_)):
    return Fraction(int(c))
  return Fraction(float(c))


def rat(c):
  f = frac(c)
  if f.denominator == 1:
    return z3.RealVal(f.numerator)
  return z3.Q(f.numerator, f.denominator)


_real_vars = {}


def real_var(i):
  v = _real_vars.get(i)
  if v is None:
    v = _real_vars[i] = z3.Real(Poly.names[i])
  return v


def poly_z3(p):
  """Polynomial as a z3 Real term."""
  if not p.t:
    return z3.RealVal(0)
  terms = []
  for m, c in p.t.items():
    f = rat(c)
    if not m:
      terms.append(f)
      continue
    e = real_var(m[0])
    for i in m[1:]:
      e = e * real_var(i)
    terms.append(e if c == 1 else f * e)
  return terms[0] if len(terms) == 1 else z3.Sum(terms)


# --------------------------------------------------------------------------
# Guarded unions


class Atom:
  """An opaque payload that may be moved but not computed with."""
  __slots__ = ('name',)
  table = {}

  def __new__(cls, name):
    a = cls.table.get(name)
    if a is None:
      a = cls.table[name] = object.__new__(cls)
      a.name = name
    return a

  def __repr__(self):
    return f'<{self.name}>'


U_LIMIT = 4096


class U:
  __slots__ = ('d',)

  def __init__(self, d):
    self.d = d

  def __repr__(self):
    return 'U{' + ', '.join(map(repr, self.d)) + '}'


def u_make(pairs):
  """Builds a union from (value, guard) pairs, merging and simplifying."""
  d = {}
  for v, g in pairs:
    if g is False:
      continue
    k = v
    if isinstance(v, (bool, np.bool_)):
      k = bool(v)
    elif isinstance(v, (int, np.integer)):
      k = int(v)
    elif isinstance(v, np.floating):
      k = float(v)
    if k in d:
      d[k] = b_or(d[k], g)
    else:
      d[k] = g
  for v, g in d.items():
    if g is True:
      return v
  if len(d) == 1:
    return next(iter(d))
  if len(d) > U_LIMIT:
    raise Unsupported('guarded union too large')
  return U(d)


def u_items(x):
  if isinstance(x, U):
    return list(x.d.items())
  if isinstance(x, BX):
    return [(True, x), (False, b_not(x))]
  return [(x, True)]


def u_lift(f, *xs):
  out = []
  for combo in itertools.product(*[u_items(x) for x in xs]):
    g = True
    for _, gg in combo:
      g = b_and(g, gg)
      if g is False:
        break
    if g is False:
      continue
    out.append((f(*[v for v, _ in combo]), g))
  return u_make(out)


def int_to_u(e, values):
  """A z3 Int/BitVec term as a union over the given candidate values."""
  return U({v: b_atom(e == v) for v in values})


# --------------------------------------------------------------------------
# z3 conversions


def kind(x):
  if isinstance(x, (bool, np.bool_)):
    return 'cb'
  if isinstance(x, (int, float, Fraction, np.generic)):
    return 'c'
  if isinstance(x, BX):
    return 'b'
  if isinstance(x, U):
    return 'u'
  if isinstance(x, Poly):
    return 'p'
  if isinstance(x, Rat):
    return 'q'
  if isinstance(x, Atom):
    return 'atom'
  if isinstance(x, z3.BitVecRef):
    return 'bv'
  if isinstance(x, z3.ArithRef):
    return 'r' if x.is_real() else 'i'
  if isinstance(x, z3.FPRef):
    return 'fp'
  if isinstance(x, z3.BoolRef):
    return 'zb'
  if isinstance(x, Opaque):
    return 'opaque'
  raise Unsupported(f'scalar {type(x)}')


class Opaque:
  """A value nobody may depend on (e.g. factors hidden by a contract)."""

  def __repr__(self):
    return '<opaque>'


OPAQUE = Opaque()


class Poison(Opaque):
  """An arbitrary, possibly non-finite value; taints what it flows into."""

  def __repr__(self):
    return '<poison>'


POISON = Poison()


def fp_val(c, sort):
  c = float(c)
  if math.isnan(c):
    return z3.fpNaN(sort)
  if math.isinf(c):
    return z3.fpPlusInfinity(sort) if c > 0 else z3.fpMinusInfinity(sort)
  return z3.FPVal(c, sort)


def as_real(x):
  k = kind(x)
  if k == 'r':
    return x
  if k == 'p':
    return poly_z3(x)
  if k == 'q':
    return poly_z3(x.n) / poly_z3(x.d)
  if k in ('c', 'cb'):
    return rat(x)
  if k == 'i':
    return z3.ToReal(x)
  if k in ('u', 'b'):
    its = u_items(x)
    e = as_real(its[-1][0])
    for v, g in its[:-1]:
      e = z3.If(to_z3(g), as_real(v), e)
    return e
  raise Unsupported(f'as_real of {k}')


def as_sort(x, ref):
  """Converts x to the sort of the z3 term ref."""
  k = kind(x)
  rk = kind(ref)
  if k == rk and k not in ('c', 'cb', 'u', 'b', 'p', 'q'):
    return x
  if k in ('u', 'b'):
    its = u_items(x)
    e = as_sort(its[-1][0], ref)
    for v, g in its[:-1]:
      e = z3.If(to_z3(g), as_sort(v, ref), e)
    return e
  if rk == 'r':
    return as_real(x)
  if rk == 'i':
    if k in ('c', 'cb'):
      return z3.IntVal(int(x))
  if rk == 'bv':
    if k in ('c', 'cb'):
      return z3.BitVecVal(int(x), ref.size())
  if rk == 'fp':
    if k in ('c', 'cb'):
      return fp_val(x, ref.sort())
  raise Unsupported(f'as_sort {k} -> {rk}')


def unify(x, y):
  kx, ky = kind(x), kind(y)
  zs = ('fp', 'bv', 'r', 'i')
  if kx in zs and ky in zs and kx != ky:
    if 'r' in (kx, ky):
      return as_real(x), as_real(y)
    raise Unsupported(f'mixing {kx} and {ky}')
  if kx in zs:
    return x, as_sort(y, x)
  if ky in zs:
    return as_sort(x, y), y
  return as_real(x), as_real(y)


def ite(c, a, b):
  """if c then a else b, for scalars."""
  if isinstance(c, z3.BoolRef):
    c = b_atom(c)
  if not isinstance(c, BX):
    return a if c else b
  if a is b:
    return a
  ka, kb = kind(a), kind(b)
  if ka in ('cb', 'b') and kb in ('cb', 'b'):
    return b_ite(c, a, b)
  if 'opaque' in (ka, kb):
    return POISON if POISON in (a, b) else OPAQUE
  simple = ('c', 'cb', 'u', 'p', 'q', 'atom', 'b')
  if ka in simple and kb in simple:
    n = (len(a.d) if ka == 'u' else 1) + (len(b.d) if kb == 'u' else 1)
    if n <= U_LIMIT:
      nc = b_not(c)
      pairs = [(v, b_and(c, g)) for v, g in u_items(a)]
      pairs += [(v, b_and(nc, g)) for v, g in u_items(b)]
      return u_make(pairs)
  x, y = unify(a, b)
  if x.eq(y):
    return x
  return z3.If(to_z3(c), x, y)


def same(a, b):
  """Formula stating that two scalars are equal."""
  ka, kb = kind(a), kind(b)
  if ka in ('cb', 'b') and kb in ('cb', 'b'):
    return b_not(b_xor(a, b))
  if ka == 'atom' and kb == 'atom':
    return a is b
  if ka in ('u', 'b', 'c', 'cb', 'atom') and kb in ('u', 'b', 'c', 'cb', 'atom'):
    r = False
    db = dict(u_items(b))
    for v, g in u_items(a):
      h = db.get(v)
      if h is not None:
        r = b_or(r, b_and(g, h))
    return r
  if 'q' in (ka, kb) and ka in ('p', 'c', 'cb', 'q') and kb in ('p', 'c', 'cb', 'q'):
    ra = a if ka == 'q' else Rat(poly_of(a), P_ONE)
    rb = b if kb == 'q' else Rat(poly_of(b), P_ONE)
    d = p_add(p_mul(ra.n, rb.d), p_scale(p_mul(rb.n, ra.d), -1))
    if not d.t:
      return True
    return b_atom(poly_z3(d) == 0)
  if ka in ('p', 'c', 'cb') and kb in ('p', 'c', 'cb'):
    d = p_add(poly_of(a), p_scale(poly_of(b), -1))
    if not d.t:
      return True
    if d.is_const():
      return False
    return b_atom(poly_z3(d) == 0)
  x, y = unify(a, b)
  if x.eq(y):
    return True
  if kind(x) == 'fp':
    return b_atom(z3.simplify(x == y))    # structural: NaN equals NaN
  return b_atom(x == y)
