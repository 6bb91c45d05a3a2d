"""Path exploration of host (numpy) code on symbolic integers.

The real functions run unmodified on SymInt objects. Every branch taken on a
symbolic condition asks the solver which outcomes are possible under the path
condition; the run is replayed for each. The union of the explored path
conditions is the whole input space described by the initial constraints.
"""
import time

import numpy as np
import z3

from vlib import ops, sym
from vlib.query import Inconclusive, z3_number
from vlib.sym import BX, STATS, to_z3

CUR = None          # the active path
HASH_REALISES = False


class Abandon(BaseException):
  """The path became infeasible (or was cut)."""


class Path:

  def __init__(self, prefix, constraints):
    self.prefix = prefix
    self.trace = []
    self.pending = []
    self.solver = z3.Solver()
    self.solver.set('timeout', 30000)
    self.cond = []
    self.m = None          # a model of the path condition, if one is at hand
    self.keep = []
    self.known = {}        # expressions whose value the path fixes
    for c in constraints:
      self.add(c)

  def add(self, c):
    self.solver.add(c)
    self.cond.append(c)

  def check(self, *extra):
    t = time.time()
    r = self.solver.check(*extra)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
      STATS.sat += 1
      return True
    if r == z3.unsat:
      STATS.unsat += 1
      return False
    STATS.unknown += 1
    raise Inconclusive('path condition: ' + self.solver.reason_unknown())

  def branch(self, c):
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    i = len(self.trace)
    if i < len(self.prefix):
      v = self.prefix[i]
    else:
      STATS.branches += 1
      if self.m is None:
        if not self.check():
          raise Abandon()
        self.m = self.solver.model()
      v = z3.is_true(self.m.eval(c, model_completion=True))
      # the model shows one outcome to be possible; ask about the other
      t = f = True
      if v:
        f = self.check(z3.Not(c))
      else:
        t = self.check(c)
        if t:
          m = self.solver.model()
          v, self.m = True, m
      if t and f:
        self.pending.append(self.trace + [False])
    self.trace.append(v)
    self.add(c if v else z3.Not(c))
    return v

  def model(self, *extra):
    if not self.check(*extra):
      return None
    return self.solver.model()

  def proves(self, c):
    """None if c holds on the whole path, else a model of its negation."""
    if isinstance(c, (bool, np.bool_)):
      return None if c else self.model()
    return self.model(z3.Not(c))


def branch(c):
  if isinstance(c, (bool, np.bool_)):
    return bool(c)
  if isinstance(c, BX):
    c = to_z3(c)
  if CUR is None:
    raise sym.Unsupported('symbolic condition outside of an exploration')
  return CUR.branch(c)


class SymBool:
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return branch(self.e)

  def __and__(self, o):
    return SymBool(z3.And(self.e, as_bool(o)))
  __rand__ = __and__

  def __or__(self, o):
    return SymBool(z3.Or(self.e, as_bool(o)))
  __ror__ = __or__

  def __invert__(self):
    return SymBool(z3.Not(self.e))


def as_bool(o):
  return o.e if isinstance(o, SymBool) else z3.BoolVal(bool(o))


def val(o):
  """z3 integer of a SymInt or python integer, else None."""
  if isinstance(o, SymInt):
    if CUR is not None and CUR.known:
      v = CUR.known.get(o.e.get_id())
      if v is not None:
        return v
    return o.e
  if isinstance(o, (bool, np.bool_, int, np.integer)):
    return z3.IntVal(int(o))
  if isinstance(o, (float, np.floating)) and float(o).is_integer():
    return z3.IntVal(int(o))
  return None


def mk(e):
  e = z3.simplify(e)
  if z3.is_int_value(e):
    return e.as_long()
  return SymInt(e)


def _cmp(f):
  def m(self, o):
    v = val(o)
    if v is None:
      if isinstance(o, np.ndarray):
        return NotImplemented
      return NotImplemented
    c = z3.simplify(f(val(self), v))
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    return SymBool(c)
  return m


def _ar(f, swap=False):
  def m(self, o):
    v = val(o)
    if v is None:
      return NotImplemented
    return mk(f(v, val(self)) if swap else f(val(self), v))
  return m


def positive(d):
  """Division is encoded for positive divisors only."""
  if not z3.is_true(z3.simplify(d > 0)) and not branch(d > 0):
    raise sym.Unsupported('division by a number that may not be positive')
  return d


class SymInt:
  """A symbolic integer for host code."""
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = z3.Int(e) if isinstance(e, str) else e

  # Equal values must share a hash, whatever the values are. Where symbolic and
  # plain integers meet in one table, hashing has to settle the value.
  def __hash__(self):
    if HASH_REALISES:
      return hash(self.realise())
    return 0

  __eq__ = _cmp(lambda a, b: a == b)
  __ne__ = _cmp(lambda a, b: a != b)
  __lt__ = _cmp(lambda a, b: a < b)
  __le__ = _cmp(lambda a, b: a <= b)
  __gt__ = _cmp(lambda a, b: a > b)
  __ge__ = _cmp(lambda a, b: a >= b)
  __add__ = _ar(lambda a, b: a + b)
  __radd__ = _ar(lambda a, b: a + b)
  __sub__ = _ar(lambda a, b: a - b)
  __rsub__ = _ar(lambda a, b: a - b, True)
  __mul__ = _ar(lambda a, b: a * b)
  __rmul__ = _ar(lambda a, b: a * b)
  __floordiv__ = _ar(lambda a, b: a / positive(b))
  __rfloordiv__ = _ar(lambda a, b: a / positive(b), True)
  __mod__ = _ar(lambda a, b: a % positive(b))
  __rmod__ = _ar(lambda a, b: a % positive(b), True)

  def __neg__(self):
    return mk(-self.e)

  def __bool__(self):
    return branch(val(self) != 0)

  def realise(self):
    if CUR is None:
      raise sym.Unsupported('symbolic integer used outside of an exploration')
    v = CUR.known.get(self.e.get_id())
    if v is not None:
      return v.as_long()
    v = self._realise()
    CUR.known[self.e.get_id()] = z3.IntVal(v)
    CUR.keep.append(self.e)
    return v

  def _realise(self):
    while True:
      m = CUR.model() if len(CUR.trace) >= len(CUR.prefix) else None
      if m is None:
        # replaying: the recorded decisions name the value
        v = CUR.prefix[len(CUR.trace)]
        if not (isinstance(v, tuple) and v[0] in ('is', 'not')):
          raise sym.Unsupported('replay diverged')
        CUR.trace.append(v)
        if v[0] == 'is':
          CUR.add(self.e == v[1])
          return v[1]
        CUR.add(self.e != v[1])
        continue
      v = m.eval(self.e, model_completion=True).as_long()
      STATS.branches += 1
      if CUR.check(self.e != v):
        CUR.pending.append(CUR.trace + [('not', v)])
      CUR.trace.append(('is', v))
      CUR.m = m
      CUR.add(self.e == v)
      return v

  __index__ = realise
  __int__ = realise

  def __float__(self):
    return float(self.realise())

  def __repr__(self):
    return f'SymInt({self.e})'


def _lift(o):
  """The polynomial behind a host number, or None."""
  if isinstance(o, SymReal):
    return o.v
  if isinstance(o, (bool, np.bool_, int, float, np.integer, np.floating,
                    sym.Fraction, sym.Poly, sym.Rat)):
    return o.item() if isinstance(o, np.generic) else o
  return None


def _rsign(v):
  """A z3 real with the sign of v (zero exactly when v is)."""
  if isinstance(v, sym.Rat):
    return sym.poly_z3(v.n) * sym.poly_z3(v.d)
  return sym.poly_z3(sym.poly_of(v))


def _rar(f, swap=False):
  def m(self, o):
    v = _lift(o)
    if v is None:
      return NotImplemented
    return SymReal.of(f(v, self.v) if swap else f(self.v, v))
  return m


def _rcmp(f):
  def m(self, o):
    v = _lift(o)
    if v is None:
      return NotImplemented
    c = z3.simplify(f(_rsign(ops.sub(self.v, v))))
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    return SymBool(c)
  return m


class SymReal:
  """A symbolic real (a rational function of the inputs) for host code.

  Comparisons fork the exploration, so a formula that treats some inputs
  specially is followed down each of its branches.
  """
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = v

  @staticmethod
  def of(v):
    if isinstance(v, (sym.Poly, sym.Rat)):
      return SymReal(v)
    return v

  def __hash__(self):
    return 0

  __add__ = _rar(ops.add)
  __radd__ = _rar(ops.add, True)
  __sub__ = _rar(ops.sub)
  __rsub__ = _rar(ops.sub, True)
  __mul__ = _rar(ops.mul)
  __rmul__ = _rar(ops.mul, True)
  __truediv__ = _rar(ops.div)
  __rtruediv__ = _rar(ops.div, True)
  __eq__ = _rcmp(lambda d: d == 0)
  __ne__ = _rcmp(lambda d: d != 0)
  __lt__ = _rcmp(lambda d: d < 0)
  __le__ = _rcmp(lambda d: d <= 0)
  __gt__ = _rcmp(lambda d: d > 0)
  __ge__ = _rcmp(lambda d: d >= 0)

  def __pow__(self, n):
    if int(n) != n:
      raise sym.Unsupported('fractional power of a symbolic real')
    r = SymReal.of(ops.ipow(self.v, abs(int(n))))
    return r if n >= 0 else 1 / r

  def __neg__(self):
    return SymReal.of(ops.neg(self.v))

  def __pos__(self):
    return self

  def __abs__(self):
    return self if self >= 0 else -self

  def __bool__(self):
    return bool(self != 0)

  def __float__(self):
    raise sym.Unsupported('number taken from a symbolic real')

  def __repr__(self):
    return f'SymReal({self.v})'


def ints(name, shape, lo=None, hi=None):
  """Array of symbolic integers and their range constraints."""
  out = np.empty(shape, dtype=object)
  cons = []
  for i in np.ndindex(*out.shape):
    x = SymInt(name + '_' + '_'.join(map(str, i)))
    out[i] = x
    if lo is not None:
      cons.append(x.e >= lo)
    if hi is not None:
      cons.append(x.e <= hi)
  return out, cons


def value(m, x):
  """Concrete value(s) of symbolic integers in a model."""
  if isinstance(x, np.ndarray):
    out = np.empty(x.shape, dtype=np.int64)
    for i in np.ndindex(*x.shape):
      out[i] = value(m, x[i])
    return out
  if isinstance(x, SymInt):
    return m.eval(x.e, model_completion=True).as_long()
  return int(x)


def explore(run, constraints=(), max_paths=20000, budget=None):
  """Calls run(path) on every feasible path; returns the number of paths."""
  global CUR
  work = [[]]
  n = 0
  t0 = time.time()
  while work:
    prefix = work.pop()
    if n >= max_paths or (budget and time.time() - t0 > budget):
      raise Inconclusive(f'{n} paths explored, more remain')
    CUR = Path(prefix, constraints)
    try:
      if not prefix and not CUR.check():
        raise Inconclusive('vacuous: the input constraints are unsatisfiable')
      run(CUR)
    except Abandon:
      pass
    finally:
      p, CUR = CUR, None
      work.extend(p.pending)
    n += 1
    STATS.paths += 1
  STATS.witnesses += 1
  return n


def same_term(a, b):
  """z3 equality of two host integers."""
  return val(a) == val(b)


# a BX condition met by host code forks as well
def _bx_bool(self):
  return branch(self)


BX.__bool__ = _bx_bool


def settle(x):
  """Object arrays of symbolic integers to native arrays (forks)."""
  if isinstance(x, np.ndarray) and x.dtype == object:
    return np.array([int(v) for v in x.flat], dtype=np.int32).reshape(x.shape)
  return x


def settle_pmap():
  """Arrays placed on devices must be concrete: settle them at that point."""
  import jax
  real = jax.pmap

  def pmap(f, *a, **k):
    g = real(f, *a, **k)

    def call(*xs, **ks):
      xs, ks = jax.tree_util.tree_map(settle, (xs, ks))
      return g(*xs, **ks)
    return call
  jax.pmap = pmap
