"""Complex values for the interpreter: Fourier transforms of symbolic fields."""
import itertools
import math

import numpy as np

from vlib import jsym, ops, sym
from vlib.jsym import RULES, elementwise, np_dtype, to_obj
from vlib.sym import Unsupported

NUM = (int, float, np.generic)


class CX:
  """re + i im of real scalars."""
  __slots__ = ('re', 'im')

  def __init__(self, re, im):
    self.re, self.im = re, im


class Root:
  """The nonnegative square root of a scalar."""
  __slots__ = ('sq',)

  def __init__(self, sq):
    self.sq = sq


def cx(a):
  if isinstance(a, CX):
    return a
  if isinstance(a, Root):
    raise Unsupported('complex root')
  if isinstance(a, (complex, np.complexfloating)):
    return CX(float(a.real), float(a.imag))
  return CX(a, 0.0)


def add(a, b):
  a, b = cx(a), cx(b)
  return CX(ops.add(a.re, b.re), ops.add(a.im, b.im))


def neg(a):
  a = cx(a)
  return CX(ops.neg(a.re), ops.neg(a.im))


def mul(a, b):
  a, b = cx(a), cx(b)
  return CX(ops.sub(ops.mul(a.re, b.re), ops.mul(a.im, b.im)),
            ops.add(ops.mul(a.re, b.im), ops.mul(a.im, b.re)))


def conj(a):
  a = cx(a)
  return CX(a.re, ops.neg(a.im))


def square_of(a):
  a = cx(a)
  return ops.add(ops.mul(a.re, a.re), ops.mul(a.im, a.im))


def power(a, n):
  if n < 0:
    raise Unsupported('negative complex power')
  r = CX(1.0, 0.0)
  for _ in range(n):
    r = mul(r, a)
  return r


def fourier(line, inverse):
  n = len(line)
  out = []
  for k in range(n):
    re = im = 0.0
    for j, v in enumerate(line):
      t = 2 * math.pi * ((j * k) % n) / n
      v = mul(v, CX(math.cos(t), math.sin(t) if inverse else -math.sin(t)))
      re, im = ops.add(re, v.re), ops.add(im, v.im)
    out.append(CX(re, im) if not inverse else
               CX(ops.mul(re, 1 / n), ops.mul(im, 1 / n)))
  return out


def along(x, axis, f):
  x = np.moveaxis(x, axis, -1)
  rows = {i: f(list(x[i])) for i in np.ndindex(*x.shape[:-1])}
  m = len(next(iter(rows.values())))
  out = np.empty(x.shape[:-1] + (m,), dtype=object)
  for i, r in rows.items():
    for k, v in enumerate(r):
      out[i + (k,)] = v
  return np.moveaxis(out, -1, axis)


def fft(it, eqn, x, *, fft_type, fft_lengths, **_):
  x = to_obj(x)
  axes = list(range(x.ndim - len(fft_lengths), x.ndim))
  kind = int(fft_type) if not hasattr(fft_type, 'value') else fft_type.value
  if kind in (0, 1):
    for a in axes:
      x = along(x, a, lambda l: fourier(l, kind == 1))
    return [x]
  if kind == 2:                      # of real values: half of the last axis
    x = along(x, axes[-1], lambda l: fourier(l, False)[:len(l) // 2 + 1])
    for a in axes[:-1]:
      x = along(x, a, lambda l: fourier(l, False))
    return [x]
  raise Unsupported('inverse transform of real values')


def is_complex(v):
  dt = np_dtype(v.aval)
  return dt is not None and dt.kind == 'c'


COMPLEX = {
    'add': add, 'add_any': add, 'sub': lambda a, b: add(a, neg(b)), 'mul': mul,
    'neg': neg, 'conj': conj, 'real': lambda a: cx(a).re,
    'imag': lambda a: cx(a).im, 'square': lambda a: mul(a, a),
    'abs': lambda a: Root(square_of(a)), 'complex': lambda a, b: CX(a, b),
}


def root(f):
  """Real operations that accept roots."""
  def g(a, b=None):
    if b is None or not (isinstance(a, Root) or isinstance(b, Root)):
      return f(a) if b is None else f(a, b)
    if isinstance(a, Root) and isinstance(b, Root):
      if a.sq is b.sq:
        return a.sq
      raise Unsupported('product of roots')
    if isinstance(b, Root):
      a, b = b, a
    if isinstance(b, NUM) and b >= 0:
      return Root(ops.mul(a.sq, float(b) ** 2))
    raise Unsupported('product with a root')
  return g


def _rule(name, old):
  def rule(it, eqn, *xs, **params):
    if any(is_complex(v) for v in eqn.invars) or is_complex(eqn.outvars[0]):
      if name == 'integer_pow':
        return [elementwise(lambda a: power(a, params['y']), xs[0])]
      if name == 'convert_element_type':
        if is_complex(eqn.outvars[0]):
          return [elementwise(cx, xs[0])]
        raise Unsupported('complex conversion')
      if name == 'div':
        if is_complex(eqn.invars[1]) and jsym.is_sym(xs[1]):
          raise Unsupported('complex division')
        return [elementwise(lambda a, b: mul(a, 1 / complex(b)), *xs)]
      if name == 'reduce_sum':
        def total(l):
          r = CX(0.0, 0.0)
          for v in l:
            r = add(r, v)
          return r
        return [jsym._reduce(xs[0], params['axes'], total)]
      return [elementwise(COMPLEX[name], *xs)]
    if name in ('mul', 'square', 'integer_pow', 'abs', 'sqrt') and any(
        isinstance(e, Root) for x in xs for e in np.ravel(to_obj(x))) or (
            name == 'sqrt'):
      if name == 'mul':
        return [elementwise(root(ops.mul), *xs)]
      if name == 'abs':
        return [xs[0]]
      if name == 'sqrt':
        return [elementwise(Root, xs[0])]
      y = params['y'] if name == 'integer_pow' else 2
      if y % 2 or y < 0:
        raise Unsupported('odd power of a root')
      return [elementwise(lambda a: ops.ipow(a.sq, y // 2) if isinstance(a, Root)
                          else ops.ipow(a, y), xs[0])]
    return old(it, eqn, *xs, **params)
  return rule


class Interp(jsym.Interp):
  """Base rules, complex values and roots."""
  rules = dict(RULES)


for _n in (*COMPLEX, 'convert_element_type', 'integer_pow', 'div', 'reduce_sum',
           'sqrt'):
  Interp.rules[_n] = _rule(_n, RULES.get(_n))
Interp.rules['fft'] = fft


def call(f, *args, **kw):
  """jsym.call with complex values."""
  old = jsym.INTERP
  jsym.INTERP = Interp
  try:
    return jsym.call(f, *args, **kw)
  finally:
    jsym.INTERP = old
