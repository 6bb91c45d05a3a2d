"""Arithmetic on symbolic scalars."""
from fractions import Fraction
import itertools
import math
import operator

import numpy as np
import z3

from vlib import sym
from vlib.sym import (Atom, BX, OPAQUE, POISON, Opaque, Poly, Rat, U, Unsupported,
                      as_real, as_sort, b_and, b_atom, b_ite, b_not, b_or,
                      b_xor, ite, kind, p_add, p_mul, p_scale, poly_of, to_z3,
                      u_items, u_lift, u_make, unify)

RNE = z3.RNE()
_fresh = itertools.count()


def fresh(prefix='t'):
  return f'{prefix}!{next(_fresh)}'


def _c(x):
  """Numpy scalar to python scalar."""
  if isinstance(x, np.generic):
    return x.item()
  return x


def poly_ite(c, a, b):
  return ite(c, a, b)


def _pr(x):
  """As a rational function."""
  return x if isinstance(x, Rat) else Rat(poly_of(x), sym.P_ONE)


def _is_lift(kx, ky):
  return kx in ('u', 'b') or ky in ('u', 'b')


def _lift2(f, x, y):
  nx = len(x.d) if isinstance(x, U) else (2 if isinstance(x, BX) else 1)
  ny = len(y.d) if isinstance(y, U) else (2 if isinstance(y, BX) else 1)
  if nx * ny > 40000:
    raise Unsupported('guarded union product too large')
  return u_lift(f, x, y)


def _lift_ok(x):
  """Whether x can be a member of a guarded union."""
  return kind(x) in ('c', 'cb', 'u', 'b', 'p', 'q', 'atom', 'opaque')


def _dispatch(name, x, y, conc, poly=None, rat=None, zint=None, fp=None,
              bv=None):
  """Generic binary arithmetic."""
  kx, ky = kind(x), kind(y)
  if kx in ('c', 'cb') and ky in ('c', 'cb'):
    return conc(_c(x), _c(y))
  if 'opaque' in (kx, ky):
    return POISON if x is POISON or y is POISON else OPAQUE
  if _is_lift(kx, ky) and _lift_ok(x) and _lift_ok(y):
    return _lift2(lambda a, b: _dispatch(name, a, b, conc, poly, rat, zint,
                                         fp, bv), x, y)
  if 'atom' in (kx, ky):
    raise Unsupported(f'{name} on an opaque payload')
  if kx in ('p', 'c', 'cb', 'q') and ky in ('p', 'c', 'cb', 'q'):
    if 'q' in (kx, ky):
      if rat is None:
        raise Unsupported(f'{name} on rational functions')
      return rat(_pr(x), _pr(y))
    if poly is None:
      raise Unsupported(f'{name} on polynomials')
    return poly(poly_of(x), poly_of(y))
  a, b = unify(x, y)
  k = kind(a)
  f = {'r': zint, 'i': zint, 'fp': fp, 'bv': bv}[k]
  if f is None:
    raise Unsupported(f'{name} on {k}')
  return f(a, b)


def _poly_out(p):
  """Collapses constant polynomials to concrete numbers."""
  if p.is_const():
    return p.cval()
  return p


def add(x, y):
  if kind(x) == 'atom' and kind(y) == 'c' and y == 0:
    return x
  if kind(y) == 'atom' and kind(x) == 'c' and x == 0:
    return y
  if type(x) in (int, float) and x == 0 and not isinstance(y, (BX, np.generic)):
    if isinstance(y, (Poly, Rat, z3.ArithRef)):
      return y
  if type(y) in (int, float) and y == 0 and isinstance(x, (Poly, Rat, z3.ArithRef)):
    return x
  return _dispatch(
      'add', x, y, operator.add, lambda a, b: _poly_out(p_add(a, b)),
      sym.q_add, operator.add, lambda a, b: z3.fpAdd(RNE, a, b), operator.add)


def neg(x):
  k = kind(x)
  if k in ('c', 'cb'):
    return -_c(x)
  if k == 'p':
    return p_scale(x, -1)
  if k == 'q':
    return Rat(p_scale(x.n, -1), x.d)
  if k in ('u', 'b'):
    return u_lift(neg, x)
  if k == 'fp':
    return z3.fpNeg(x)
  if k == 'opaque':
    return x
  if k == 'atom':
    raise Unsupported('negation of an opaque payload')
  return -x


def sub(x, y):
  if kind(y) in ('p', 'q') and kind(x) in ('c', 'p', 'q'):
    return add(x, neg(y))
  return _dispatch(
      'sub', x, y, operator.sub,
      lambda a, b: _poly_out(p_add(a, p_scale(b, -1))),
      lambda a, b: sym.q_add(a, neg(b)), operator.sub,
      lambda a, b: z3.fpSub(RNE, a, b), operator.sub)


def mul(x, y):
  kx, ky = kind(x), kind(y)
  # masks select rather than multiply
  if kx in ('cb', 'c') and _c(x) == 1 and ky not in ('cb', 'b', 'c'):
    return y
  if ky in ('cb', 'c') and _c(y) == 1 and kx not in ('cb', 'b', 'c'):
    return x
  if kx in ('cb', 'c') and _c(x) == 0 and ky not in ('fp', 'opaque', 'c', 'cb'):
    return 0 if kx == 'cb' else _c(x)
  if ky in ('cb', 'c') and _c(y) == 0 and kx not in ('fp', 'opaque', 'c', 'cb'):
    return 0 if ky == 'cb' else _c(y)
  if kx == 'b' and ky not in ('fp', 'opaque', 'b', 'cb'):
    return ite(x, y, 0)
  if ky == 'b' and kx not in ('fp', 'opaque', 'b', 'cb'):
    return ite(y, x, 0)
  return _dispatch(
      'mul', x, y, operator.mul, lambda a, b: _poly_out(p_mul(a, b)),
      sym.q_mul, operator.mul, lambda a, b: z3.fpMul(RNE, a, b), operator.mul)


def _cdiv(a, b):
  """True division with IEEE conventions for zero divisors."""
  if b == 0:
    if isinstance(a, Fraction) or isinstance(b, Fraction):
      a, b = float(a), float(b)
    with np.errstate(all='ignore'):
      return float(np.float64(a) / np.float64(b))
  if isinstance(a, int) and isinstance(b, int):
    return a / b
  return a / b


def div(x, y):
  """Real division."""
  kx, ky = kind(x), kind(y)
  if ky == 'c' and kx in ('p', 'q'):
    if _c(y) == 0:
      raise Unsupported('division by zero')
    if sym.EXACT and isinstance(y, (float, int, np.generic)):
      y = Fraction(_c(y))
    if isinstance(y, Fraction):
      return mul(x, 1 / y)
    m, _ = math.frexp(abs(float(y)))
    if m == 0.5:                     # a power of two: exact
      return mul(x, 1.0 / float(_c(y)))
    if kx == 'p':
      return Poly({k: c / _c(y) if not isinstance(c, Fraction)
                   else c / Fraction(_c(y)) for k, c in x.t.items()})
    return Rat(x.n, p_scale(x.d, _c(y)))
  if kx in ('r', 'i') or ky in ('r', 'i'):
    a, b = as_real(x), as_real(y)
    return a / b
  return _dispatch(
      'div', x, y, _cdiv, lambda a, b: sym.q_div(_pr(a), _pr(b)),
      sym.q_div, None, lambda a, b: z3.fpDiv(RNE, a, b), None)


def _tdiv(a, b):
  if b == 0:
    return -1
  q = abs(a) // abs(b)
  return q if (a >= 0) == (b >= 0) else -q


def idiv(x, y):
  """lax.div on integers: truncates toward zero."""
  def zi(a, b):
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a >= 0) == (b >= 0), q, -q)
  return _dispatch('idiv', x, y, _tdiv, None, None, zi, None, operator.truediv)


def irem(x, y):
  """lax.rem on integers: sign of the dividend."""
  def zi(a, b):
    r = z3.If(a >= 0, a, -a) % z3.If(b >= 0, b, -b)
    return z3.If(a >= 0, r, -r)
  def c(a, b):
    if b == 0:
      return a
    return a - _tdiv(a, b) * b
  return _dispatch('irem', x, y, c, None, None, zi, None, z3.SRem)


def _pyfloor(name, f, zi):
  return lambda x, y: _dispatch(name, x, y, f, None, None, zi, None, None)


def _cmp(name, f, zf, fpf, bvf):
  def op(x, y):
    kx, ky = kind(x), kind(y)
    if kx in ('c', 'cb') and ky in ('c', 'cb'):
      return bool(f(_c(x), _c(y)))
    if name in ('eq', 'ne') and kx in ('cb', 'b') and ky in ('cb', 'b'):
      r = b_xor(x, y)
      return r if name == 'ne' else b_not(r)
    if 'opaque' in (kx, ky):
      raise Unsupported('comparison of an opaque value')
    if _is_lift(kx, ky) and _lift_ok(x) and _lift_ok(y):
      r = False
      for v, g in u_items(x):
        for w, h in u_items(y):
          t = b_and(g, h)
          if t is False:
            continue
          r = b_or(r, b_and(t, op(v, w)))
      return r
    if 'atom' in (kx, ky):
      raise Unsupported('comparison of an opaque payload')
    if kx in ('p', 'c', 'q', 'cb') and ky in ('p', 'c', 'q', 'cb'):
      if kx == 'c' and isinstance(_c(x), float) and math.isinf(x) or (
          ky == 'c' and isinstance(_c(y), float) and math.isinf(y)):
        # symbols range over finite values
        a = _c(x) if kx == 'c' else 0.0
        b = _c(y) if ky == 'c' else 0.0
        return bool(f(a, b))
      if 'q' not in (kx, ky):
        d = p_add(poly_of(x), p_scale(poly_of(y), -1))
        if d.is_const():
          return bool(f(d.cval(), 0))
        return b_atom(zf(sym.poly_z3(d), z3.RealVal(0)))
      return b_atom(zf(as_real(x), as_real(y)))
    a, b = unify(x, y)
    k = kind(a)
    return b_atom({'r': zf, 'i': zf, 'fp': fpf, 'bv': bvf}[k](a, b))
  return op


eq = _cmp('eq', operator.eq, operator.eq, z3.fpEQ, operator.eq)
ne = _cmp('ne', operator.ne, operator.ne, lambda a, b: z3.Not(z3.fpEQ(a, b)),
          operator.ne)
lt = _cmp('lt', operator.lt, operator.lt, z3.fpLT, operator.lt)
le = _cmp('le', operator.le, operator.le, z3.fpLEQ, operator.le)
gt = _cmp('gt', operator.gt, operator.gt, z3.fpGT, operator.gt)
ge = _cmp('ge', operator.ge, operator.ge, z3.fpGEQ, operator.ge)


def _cmax(a, b):
  if isinstance(a, float) and math.isnan(a):
    return a
  if isinstance(b, float) and math.isnan(b):
    return b
  return a if a >= b else b


def _cmin(a, b):
  if isinstance(a, float) and math.isnan(a):
    return a
  if isinstance(b, float) and math.isnan(b):
    return b
  return a if a <= b else b


def _fpmax(a, b):
  return z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b,
                                       z3.If(z3.fpGEQ(a, b), a, b)))


def _fpmin(a, b):
  return z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b,
                                       z3.If(z3.fpLEQ(a, b), a, b)))


def maximum(x, y):
  kx, ky = kind(x), kind(y)
  if kx in ('cb', 'b') and ky in ('cb', 'b'):
    return b_or(x, y)
  if kx in ('p', 'q', 'r') or ky in ('p', 'q', 'r'):
    for a, b in ((x, y), (y, x)):
      if kind(a) == 'c' and isinstance(_c(a), float) and math.isinf(a):
        return b if a < 0 else a
    a, b = as_real(x), as_real(y)
    return z3.If(a >= b, a, b)
  return _dispatch('max', x, y, _cmax, None, None,
                   lambda a, b: z3.If(a >= b, a, b), _fpmax,
                   lambda a, b: z3.If(a >= b, a, b))


def minimum(x, y):
  kx, ky = kind(x), kind(y)
  if kx in ('cb', 'b') and ky in ('cb', 'b'):
    return b_and(x, y)
  if kx in ('p', 'q', 'r') or ky in ('p', 'q', 'r'):
    for a, b in ((x, y), (y, x)):
      if kind(a) == 'c' and isinstance(_c(a), float) and math.isinf(a):
        return b if a > 0 else a
    a, b = as_real(x), as_real(y)
    return z3.If(a <= b, a, b)
  return _dispatch('min', x, y, _cmin, None, None,
                   lambda a, b: z3.If(a <= b, a, b), _fpmin,
                   lambda a, b: z3.If(a <= b, a, b))


def land(x, y):
  if kind(x) in ('cb', 'b') and kind(y) in ('cb', 'b'):
    return b_and(x, y)
  return _dispatch('and', x, y, operator.and_, bv=operator.and_)


def lor(x, y):
  if kind(x) in ('cb', 'b') and kind(y) in ('cb', 'b'):
    return b_or(x, y)
  return _dispatch('or', x, y, operator.or_, bv=operator.or_)


def lxor(x, y):
  if kind(x) in ('cb', 'b') and kind(y) in ('cb', 'b'):
    return b_xor(x, y)
  return _dispatch('xor', x, y, operator.xor, bv=operator.xor)


def lnot(x):
  k = kind(x)
  if k in ('cb', 'b'):
    return b_not(bool(x) if k == 'cb' else x)
  if k == 'c':
    return ~_c(x)
  if k == 'u':
    return u_lift(lnot, x)
  if k == 'bv':
    return ~x
  raise Unsupported(f'not on {k}')


def shl(x, y):
  return _dispatch('shl', x, y, lambda a, b: a << b if b >= 0 else 0,
                   bv=lambda a, b: a << b)


def shr(x, y):
  return _dispatch('shr', x, y, lambda a, b: a >> b, bv=lambda a, b: a >> b)


def shr_logical(x, y):
  return _dispatch('shrl', x, y, lambda a, b: a >> b, bv=z3.LShR)


def ipow(x, n):
  if n < 0:
    return div(1.0, ipow(x, -n))
  if n == 0:
    return 1
  r = x
  for _ in range(n - 1):
    r = mul(r, x)
  return r


def absval(x):
  k = kind(x)
  if k in ('c', 'cb'):
    return abs(_c(x))
  if k in ('u', 'b'):
    return u_lift(absval, x)
  if k == 'fp':
    return z3.fpAbs(x)
  if k == 'opaque':
    return x
  if k in ('p', 'q'):
    x = as_real(x)
  return z3.If(x >= 0, x, -x)


def sign(x):
  k = kind(x)
  if k in ('c', 'cb'):
    v = _c(x)
    if isinstance(v, float):
      return float(np.sign(v))
    return (v > 0) - (v < 0)
  if k in ('u', 'b'):
    return u_lift(sign, x)
  if k == 'opaque':
    return x
  x = as_real(x) if k in ('p', 'q') else x
  one = z3.RealVal(1) if x.is_real() else z3.IntVal(1)
  zero = z3.RealVal(0) if x.is_real() else z3.IntVal(0)
  return z3.If(x > 0, one, z3.If(x < 0, -one, zero))


def wrap(x, dtype):
  """Wraps an integer result to its machine type (concrete members only)."""
  k = kind(x)
  if k == 'c' and isinstance(x, int):
    info = np.iinfo(dtype)
    if info.min <= x <= info.max:
      return x
    n = info.bits
    x &= (1 << n) - 1
    if info.min < 0 and x >= 1 << (n - 1):
      x -= 1 << n
    return x
  if k == 'u':
    if all(isinstance(v, int) for v in x.d):
      info = np.iinfo(dtype)
      if all(info.min <= v <= info.max for v in x.d):
        return x
      return u_lift(lambda v: wrap(v, dtype), x)
  return x


# --------------------------------------------------------------------------
# Operators, so that oracles and host code can be written with numpy


def _install(cls):
  def bind(name, f):
    setattr(cls, f'__{name}__', lambda a, b: _coerced(f, a, b))
    setattr(cls, f'__r{name}__', lambda a, b: _coerced(f, b, a))
  for name, f in (('add', add), ('sub', sub), ('mul', mul), ('truediv', div)):
    bind(name, f)
  cls.__neg__ = neg
  cls.__pos__ = lambda a: a
  cls.__abs__ = absval
  cls.__pow__ = lambda a, n: ipow(a, int(n))
  cls.__lt__ = lambda a, b: lt(a, b)
  cls.__le__ = lambda a, b: le(a, b)
  cls.__gt__ = lambda a, b: gt(a, b)
  cls.__ge__ = lambda a, b: ge(a, b)


def _coerced(f, a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    if isinstance(a, np.ndarray) and a.ndim == 0:
      a = a[()]
    elif isinstance(b, np.ndarray) and b.ndim == 0:
      b = b[()]
    else:
      return np.frompyfunc(f, 2, 1)(a, b)
  return f(a, b)


for _cls in (Poly, Rat, U):
  _install(_cls)
