"""Symbolic interpreter for jaxprs.

The real code is traced by JAX itself (jax.make_jaxpr, or the SymTrace below),
so the program that is encoded is regenerated from the working tree on every
run. Arrays are numpy arrays; an array of dtype object is symbolic and holds
the scalars of vlib.sym. Sub-computations without symbolic inputs are executed
by JAX or numpy. Programs mapped over devices (shard_map, or a jaxpr with a
bound axis) run in lockstep over all devices.
"""
from fractions import Fraction
import functools
import itertools
import math

import jax
from jax import lax
from jax._src import core as jcore
from jax.extend import core as jex_core
import jax.numpy as jnp
import numpy as np
import z3

from vlib import ops
from vlib import sym
from vlib.sym import (Atom, BX, OPAQUE, POISON, Poly, Rat, STATS, U,
                      Unsupported, b_and, b_any, b_atom, b_not, b_or, ite,
                      kind, p_scale, u_items, u_lift, u_make)

CONC = (bool, int, float)


def is_sym(x):
  return isinstance(x, np.ndarray) and x.dtype == object


def to_obj(x):
  """Any array to an object array of python/symbolic scalars."""
  if is_sym(x):
    return x
  if not isinstance(x, (np.ndarray, np.generic)) and not hasattr(x, 'dtype'):
    return _as_arr(x)
  x = np.asarray(x)
  if x.dtype.kind not in 'biuf':      # extended floats such as bfloat16
    x = x.astype(np.float64)
  return x.astype(object)


def demote(x, dtype):
  """Object array to a native array if it holds only concrete values."""
  if not is_sym(x):
    return x
  for e in x.flat:
    if type(e) not in CONC:
      return x
  try:
    return np.array(x.tolist(), dtype=dtype).reshape(x.shape)
  except (OverflowError, TypeError, ValueError):
    return x


def obj_array(shape, f=None):
  out = np.empty(shape, dtype=object)
  if f is not None:
    for i in np.ndindex(*shape):
      out[i] = f(i)
  return out


def filled(shape, v):
  out = np.empty(shape, dtype=object)
  out[...] = v
  return out


def elementwise(f, *xs):
  xs = [to_obj(x) for x in xs]
  r = np.frompyfunc(f, len(xs), 1)(*xs)
  if not isinstance(r, np.ndarray):
    out = np.empty((), dtype=object)
    out[()] = r
    return out
  return r


def poly_vars(name, shape):
  return obj_array(shape, lambda i: Poly.var(
      name + '[' + ','.join(map(str, i)) + ']'))


def _dot1(xs, ys):
  """Sum of products of two scalar sequences."""
  acc = {}
  rest = None
  for x, y in zip(xs, ys):
    if sym.EXACT:
      x, y = (Fraction(v) if isinstance(v, float) and math.isfinite(v) else v
              for v in (x, y))
    tx, ty = type(x), type(y)
    if (tx is Poly or tx in CONC or tx is Fraction) and (
        ty is Poly or ty in CONC or ty is Fraction):
      if tx is not Poly:
        x, y, tx, ty = y, x, ty, tx
      if tx is not Poly:
        v = x * y
        if v != v or v in (math.inf, -math.inf):
          rest = v if rest is None else ops.add(rest, v)
        else:
          acc[()] = acc.get((), 0) + v
      elif ty is not Poly:
        if y:
          for m, c in x.t.items():
            acc[m] = acc.get(m, 0) + c * y
      else:
        for m, c in x.t.items():
          for n, d in y.t.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            acc[k] = acc.get(k, 0) + c * d
    else:
      v = ops.mul(x, y)
      rest = v if rest is None else ops.add(rest, v)
  p = Poly({m: c for m, c in acc.items() if c != 0})
  p = p.cval() if p.is_const() else p
  if rest is None:
    return p
  if type(p) in CONC and p == 0:
    return rest
  return ops.add(rest, p)


_ONES = itertools.repeat(1)


def sum_scalars(xs):
  return _dot1(xs, _ONES)


def np_dtype(aval):
  try:
    return np.dtype(aval.dtype)
  except TypeError:
    return None


# --------------------------------------------------------------------------
# Rules

RULES = {}
COLLECTIVES = {}
NPFAST = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def _ew(name, f):
  def r(it, eqn, *xs, **params):
    return [elementwise(f, *xs)]
  RULES[name] = r


def _int_wrap(f):
  return f


def _arith(name, f):
  def r(it, eqn, x, y, **params):
    dt = np_dtype(eqn.outvars[0].aval)
    if dt is not None and dt.kind in 'iu':
      return [elementwise(lambda a, b: ops.wrap(f(a, b), dt), x, y)]
    if dt is not None and dt.kind == 'b' and name == 'add':
      return [elementwise(ops.lor, x, y)]
    return [elementwise(f, x, y)]
  RULES[name] = r


def _unsigned(f):
  """Order-dependent operations on unsigned words, by flipping the top bit."""
  def g(a, b):
    if 'bv' in (kind(a), kind(b)):
      a, b = sym.unify(a, b)
      top = z3.BitVecVal(1 << (a.size() - 1), a.size())
      r = f(a ^ top, b ^ top)
      return z3.simplify(r ^ top) if isinstance(r, z3.BitVecRef) else r
    return f(a, b)
  return g


def _ordered(name, f):
  uf = _unsigned(f)
  def r(it, eqn, x, y, **params):
    dt = np_dtype(eqn.invars[0].aval)
    return [elementwise(uf if dt is not None and dt.kind == 'u' else f, x, y)]
  RULES[name] = r


_arith('add', ops.add)
_arith('add_any', ops.add)
_arith('sub', ops.sub)
_ordered('max', ops.maximum)
_ordered('min', ops.minimum)
_ew('eq', ops.eq)
_ew('ne', ops.ne)
for _n in ('lt', 'le', 'gt', 'ge'):
  _ordered(_n, getattr(ops, _n))
_ew('and', ops.land)
_ew('or', ops.lor)
_ew('xor', ops.lxor)
_ew('not', ops.lnot)
_ew('neg', ops.neg)
_ew('abs', ops.absval)
_ew('sign', ops.sign)
_ew('shift_left', ops.shl)
_ew('shift_right_arithmetic', ops.shr)
_ew('shift_right_logical', ops.shr_logical)
_ew('real', lambda x: x)
_ew('stop_gradient', lambda x: x)


@rule('mul')
def _mul(it, eqn, x, y, **_):
  dt = np_dtype(eqn.outvars[0].aval)
  if dt.kind == 'b':
    return [elementwise(ops.land, x, y)]
  if dt.kind in 'iu':
    return [elementwise(lambda a, b: ops.wrap(ops.mul(a, b), dt), x, y)]
  # XLA turns multiplication by a converted predicate into a selection.
  for a, b, v in ((x, y, eqn.invars[0]), (y, x, eqn.invars[1])):
    if it.is_pred(v) and not is_sym(a):
      return [elementwise(lambda m, e: 0.0 if m == 0 else e, a, b)]
  return [elementwise(ops.mul, x, y)]


@rule('div')
def _div(it, eqn, x, y, **_):
  if np_dtype(eqn.outvars[0].aval).kind in 'iu':
    return [elementwise(ops.idiv, x, y)]
  return [elementwise(ops.div, x, y)]


def _fmod(a, b):
  if kind(a) not in ('c', 'cb') or kind(b) not in ('c', 'cb'):
    raise Unsupported('float remainder')
  return float(np.fmod(float(a), float(b)))


@rule('rem')
def _rem(it, eqn, x, y, **_):
  if np_dtype(eqn.outvars[0].aval).kind not in 'iu':
    return [elementwise(lambda a, b: u_lift(_fmod, a, b), x, y)]
  return [elementwise(ops.irem, x, y)]


@rule('integer_pow')
def _ipow(it, eqn, x, y, **_):
  return [elementwise(lambda a: ops.ipow(a, y), x)]


@rule('square')
def _square(it, eqn, x, **_):
  return [elementwise(lambda a: ops.mul(a, a), x)]


def exact_sqrt(v):
  return math.sqrt(v)


@rule('sqrt')
def _sqrt(it, eqn, x, **_):
  return [elementwise(it.fn1('sqrt'), x)]


for _n in ('exp', 'log', 'sin', 'cos', 'tanh', 'rsqrt', 'logistic', 'log1p',
           'expm1', 'floor', 'ceil', 'round', 'erf', 'erf_inv', 'tan', 'cbrt',
           'sinh', 'cosh', 'atan'):
  def _mk(n):
    def r(it, eqn, x, **params):
      return [elementwise(it.fn1(n), x)]
    RULES[n] = r
  _mk(_n)


@rule('pow')
def _pow(it, eqn, x, y, **_):
  def f(a, b):
    if type(b) in CONC and float(b).is_integer() and abs(b) < 64:
      return ops.ipow(a, int(b))
    if type(a) in CONC and type(b) in CONC:
      return float(a) ** float(b)
    if type(b) in CONC and b == 0.5:
      return it.fn1('sqrt')(a)
    raise Unsupported('power with a symbolic exponent')
  return [elementwise(f, x, y)]


@rule('is_finite')
def _is_finite(it, eqn, x, **_):
  def f(a):
    k = kind(a)
    if k == 'c':
      return math.isfinite(a)
    if k == 'fp':
      return b_atom(z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a))))
    if k == 'opaque':
      raise Unsupported('finiteness of an opaque value')
    return True
  return [elementwise(f, x)]


def convert_scalar(e, src, dst):
  """Conversion of one scalar between numpy dtypes."""
  k = kind(e)
  if k == 'opaque' or k == 'atom':
    return e
  sk, dk = src.kind, dst.kind
  if dk == 'V' or sk == 'V':
    sk = 'f' if sk == 'V' else sk
    dk = 'f' if dk == 'V' else dk
  if dk == 'b':
    return ops.ne(e, 0) if sk != 'b' else e
  if k in ('c', 'cb'):
    if dk in 'iu':
      return ops.wrap(int(e), dst)
    return float(e) if not isinstance(e, Fraction) else e
  if k == 'b':
    one, zero = (1, 0) if dk in 'iu' else (1.0, 0.0)
    return u_make([(one, e), (zero, b_not(e))])
  if k == 'u':
    if sk in 'iu' and dk == 'f':
      return u_lift(lambda v: float(v) if isinstance(v, int) else v, e)
    if dk in 'iu':
      return u_lift(lambda v: convert_scalar(v, src, dst), e)
    return e
  if k in ('p', 'q', 'r'):
    if dk == 'f':
      return e
    raise Unsupported('conversion of a symbolic real to an integer')
  if k == 'i':
    return z3.ToReal(e) if dk == 'f' else e
  if k == 'bv':
    n = dst.itemsize * 8
    if dk in 'iu':
      if n == e.size():
        return e
      if n < e.size():
        return z3.Extract(n - 1, 0, e)
      return (z3.SignExt if sk == 'i' else z3.ZeroExt)(n - e.size(), e)
    raise Unsupported('bit-vector to float')
  if k == 'fp':
    if dk == 'f' and src == dst:
      return e
    if dk == 'f' and dst == np.float64:
      return z3.fpFPToFP(z3.RNE(), e, z3.Float64())
    raise Unsupported('float conversion')
  raise Unsupported(f'conversion of {k}')


@rule('convert_element_type')
def _cet(it, eqn, x, *, new_dtype, **_):
  src = np_dtype(eqn.invars[0].aval)
  dst = np.dtype(new_dtype)
  if src == dst:
    return [x]
  return [elementwise(lambda e: convert_scalar(e, src, dst), x)]


@rule('reduce_precision', 'copy', 'copy_p', 'optimization_barrier',
      'sharding_constraint', 'mesh_cast', 'pvary', 'reshard', 'device_put')
def _identity(it, eqn, *xs, **_):
  return list(xs)


@rule('bitcast_convert_type')
def _bitcast(it, eqn, x, *, new_dtype, **_):
  if np_dtype(eqn.invars[0].aval).itemsize != np.dtype(new_dtype).itemsize:
    raise Unsupported('bitcast to another width')
  if np_dtype(eqn.invars[0].aval).kind in 'iu' and np.dtype(new_dtype).kind in 'iu':
    return [elementwise(lambda e: ops.wrap(e, np.dtype(new_dtype)), x)]
  raise Unsupported('bitcast')


@rule('select_n')
def _select_n(it, eqn, which, *cases, **_):
  if len(cases) == 2 and np_dtype(eqn.invars[0].aval).kind == 'b':
    return [elementwise(lambda c, f, t: ite(c, t, f), which, *cases)]
  def f(w, *cs):
    r = cs[-1]
    for i in reversed(range(len(cs) - 1)):
      r = ite(ops.eq(w, i), cs[i], r)
    return r
  return [elementwise(f, which, *cases)]


@rule('clamp')
def _clamp(it, eqn, lo, x, hi, **_):
  return [elementwise(lambda l, a, h: ops.minimum(ops.maximum(a, l), h),
                      lo, x, hi)]


# data movement -----------------------------------------------------------


@rule('broadcast_in_dim')
def _bid(it, eqn, x, *dyn, shape, broadcast_dimensions, **_):
  x = np.asarray(x)
  s = [1] * len(shape)
  for i, d in enumerate(broadcast_dimensions):
    s[d] = x.shape[i]
  return [np.broadcast_to(x.reshape(s), shape)]


@rule('reshape')
def _reshape(it, eqn, x, *dyn, new_sizes, dimensions=None, **_):
  if dimensions is not None:
    x = np.transpose(x, dimensions)
  return [np.reshape(x, new_sizes)]


@rule('squeeze')
def _squeeze(it, eqn, x, *, dimensions, **_):
  return [np.squeeze(x, tuple(dimensions))]


@rule('expand_dims')
def _expand(it, eqn, x, *, dimensions, **_):
  return [np.expand_dims(x, tuple(dimensions))]


@rule('transpose')
def _transpose(it, eqn, x, *, permutation, **_):
  return [np.transpose(x, permutation)]


@rule('rev')
def _rev(it, eqn, x, *, dimensions, **_):
  return [np.flip(x, dimensions)]


@rule('slice')
def _slice(it, eqn, x, *, start_indices, limit_indices, strides, **_):
  strides = strides or [1] * len(start_indices)
  return [x[tuple(slice(a, b, c) for a, b, c in
                  zip(start_indices, limit_indices, strides))]]


@rule('concatenate')
def _concat(it, eqn, *xs, dimension, **_):
  if any(is_sym(x) for x in xs):
    xs = [to_obj(x) for x in xs]
  return [np.concatenate(xs, axis=dimension)]


@rule('split')
def _split(it, eqn, x, *, sizes, axis, **_):
  return np.split(x, np.cumsum(sizes)[:-1], axis=axis)


@rule('pad')
def _pad(it, eqn, x, v, *, padding_config, **_):
  x, v = to_obj(x), to_obj(v)
  for d, (lo, hi, inner) in enumerate(padding_config):
    n = x.shape[d]
    if inner and n > 1:
      s = list(x.shape)
      s[d] = n + (n - 1) * inner
      y = filled(s, v[()])
      idx = [slice(None)] * x.ndim
      idx[d] = slice(None, None, inner + 1)
      y[tuple(idx)] = x
      x = y
    idx = [slice(None)] * x.ndim
    if lo < 0:
      idx[d] = slice(-lo, None)
      x = x[tuple(idx)]
    if hi < 0:
      idx = [slice(None)] * x.ndim
      idx[d] = slice(None, x.shape[d] + hi)
      x = x[tuple(idx)]
    if lo > 0 or hi > 0:
      s = list(x.shape)
      s[d] += max(lo, 0) + max(hi, 0)
      y = filled(s, v[()])
      idx = [slice(None)] * x.ndim
      idx[d] = slice(max(lo, 0), max(lo, 0) + x.shape[d])
      y[tuple(idx)] = x
      x = y
  return [x]


@rule('iota')
def _iota(it, eqn, *dyn, dtype, shape, dimension, **_):
  s = [1] * len(shape)
  s[dimension] = shape[dimension]
  return [np.broadcast_to(
      np.arange(shape[dimension], dtype=dtype).reshape(s), shape)]


def _starts(idx, n_out, size, n):
  """Clamped dynamic start as a list of (value, guard)."""
  hi = n - size
  def clamp(v):
    return min(max(v, 0), hi)
  return u_items(u_lift(clamp, idx) if not isinstance(idx, (int, np.integer))
                 else clamp(int(idx)))


def _scalar_index(x):
  e = np.asarray(x)[()]
  if isinstance(e, np.generic):
    e = e.item()
  if kind(e) not in ('c', 'cb', 'u', 'b'):
    raise Unsupported('symbolic index outside of a guarded union')
  return e


def merge_arrays(pairs):
  """Merges [(array, guard)] with exhaustive exclusive guards."""
  pairs = [(to_obj(a), g) for a, g in pairs if g is not False]
  out = pairs[-1][0]
  for a, g in reversed(pairs[:-1]):
    out = elementwise(lambda x, y: ite(g, x, y), a, out)
  return out


@rule('dynamic_slice')
def _dslice(it, eqn, x, *starts, slice_sizes, **_):
  starts = starts[:x.ndim]
  opts = [_starts(_scalar_index(s), 0, sz, n)
          for s, sz, n in zip(starts, slice_sizes, x.shape)]
  pairs = []
  for combo in itertools.product(*opts):
    g = True
    for _, h in combo:
      g = b_and(g, h)
    pairs.append((x[tuple(slice(v, v + sz) for (v, _), sz in
                          zip(combo, slice_sizes))], g))
  return [merge_arrays(pairs)]


@rule('dynamic_update_slice')
def _dus(it, eqn, x, u, *starts, **_):
  opts = [_starts(_scalar_index(s), 0, sz, n)
          for s, sz, n in zip(starts, u.shape, x.shape)]
  pairs = []
  x, u = to_obj(x), to_obj(u)
  for combo in itertools.product(*opts):
    g = True
    for _, h in combo:
      g = b_and(g, h)
    if g is False:
      continue
    y = x.copy()
    y[tuple(slice(v, v + sz) for (v, _), sz in zip(combo, u.shape))] = u
    pairs.append((y, g))
  return [merge_arrays(pairs)]


def _mode(m):
  return lax.GatherScatterMode.from_any(m) if m is not None else None


@rule('gather')
def _gather(it, eqn, x, idx, *, dimension_numbers, slice_sizes, mode,
            fill_value, **_):
  dn = dimension_numbers
  mode = _mode(mode)
  x = to_obj(x)
  dt = np_dtype(eqn.outvars[0].aval)
  fill = fill_value
  if fill is None:
    fill = (float('nan') if dt.kind == 'f' else False if dt.kind == 'b' else
            int(np.iinfo(dt).min) if dt.kind == 'i' else int(np.iinfo(dt).max))
  out_shape = eqn.outvars[0].aval.shape
  batch_out = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
  ob = tuple(getattr(dn, 'operand_batching_dims', ()))
  sb = tuple(getattr(dn, 'start_indices_batching_dims', ()))
  offset_operand = [d for d in range(x.ndim)
                    if d not in dn.collapsed_slice_dims and d not in ob]
  out = np.empty(out_shape, dtype=object)
  bshape = [out_shape[d] for d in batch_out]
  oshape = [out_shape[d] for d in dn.offset_dims]
  idxo = idx
  for b in np.ndindex(*bshape):
    vec = idxo[b]
    pos = [(0, True)]
    dims = []
    opts = []
    for k, d in enumerate(dn.start_index_map):
      e = vec[k]
      if isinstance(e, np.generic):
        e = e.item()
      if kind(e) not in ('c', 'cb', 'u', 'b'):
        raise Unsupported('symbolic gather index')
      dims.append(d)
      opts.append(u_items(e))
    pairs = []
    for combo in itertools.product(*opts):
      g = True
      for _, h in combo:
        g = b_and(g, h)
      if g is False:
        continue
      start = [0] * x.ndim
      oob = False
      for d, (v, _) in zip(dims, combo):
        hi = x.shape[d] - slice_sizes[d]
        if v < 0 or v > hi:
          oob = True
        start[d] = min(max(int(v), 0), hi)
      for d, s in zip(ob, sb):
        # position of the batching dimension among the batch dims of indices
        start[d] = b[s]
      if oob and mode == lax.GatherScatterMode.FILL_OR_DROP:
        pairs.append((None, g))
      else:
        pairs.append((tuple(start), g))
    for o in np.ndindex(*oshape):
      oi = [None] * len(out_shape)
      for d, v in zip(batch_out, b):
        oi[d] = v
      for d, v in zip(dn.offset_dims, o):
        oi[d] = v
      r = None
      for start, g in reversed(pairs):
        if start is None:
          v = fill
        else:
          p = list(start)
          for d, v in zip(offset_operand, o):
            p[d] += v
          v = x[tuple(p)]
        r = v if r is None else ite(g, v, r)
      out[tuple(oi)] = r
  return [out]


def _scatter_impl(combine):
  def f(it, eqn, x, idx, upd, *, dimension_numbers, mode, **_):
    dn = dimension_numbers
    mode = _mode(mode)
    out = to_obj(x).copy()
    upd = to_obj(upd)
    ob = tuple(getattr(dn, 'operand_batching_dims', ()))
    sb = tuple(getattr(dn, 'scatter_indices_batching_dims', ()))
    window = dn.update_window_dims
    batch_dims = [d for d in range(upd.ndim) if d not in window]
    woperand = [d for d in range(out.ndim)
                if d not in dn.inserted_window_dims and d not in ob]
    wsize = {d: upd.shape[w] for d, w in zip(woperand, window)}
    dt = np_dtype(eqn.outvars[0].aval)
    for b in np.ndindex(*[upd.shape[d] for d in batch_dims]):
      vec = idx[b]
      opts = []
      for k, d in enumerate(dn.scatter_dims_to_operand_dims):
        e = vec[k]
        if isinstance(e, np.generic):
          e = e.item()
        if kind(e) not in ('c', 'cb', 'u', 'b'):
          raise Unsupported('symbolic scatter index')
        opts.append(u_items(e))
      for combo in itertools.product(*opts):
        g = True
        for _, h in combo:
          g = b_and(g, h)
        if g is False:
          continue
        start = [0] * out.ndim
        oob = False
        for d, (v, _) in zip(dn.scatter_dims_to_operand_dims, combo):
          hi = out.shape[d] - wsize.get(d, 1)
          if v < 0 or v > hi:
            oob = True
          start[d] = int(v)
          if mode == lax.GatherScatterMode.CLIP:
            start[d] = min(max(start[d], 0), hi)
        if oob and mode != lax.GatherScatterMode.CLIP:
          continue
        for d, s in zip(ob, sb):
          start[d] = b[s]
        for w in np.ndindex(*[upd.shape[d] for d in window]):
          p = list(start)
          for d, v in zip(woperand, w):
            p[d] += v
          p = tuple(p)
          ui = [None] * upd.ndim
          for d, v in zip(batch_dims, b):
            ui[d] = v
          for d, v in zip(window, w):
            ui[d] = v
          new = combine(out[p], upd[tuple(ui)])
          if dt.kind in 'iu':
            new = ops.wrap(new, dt)
          out[p] = ite(g, new, out[p])
    return [out]
  return f


RULES['scatter'] = _scatter_impl(lambda a, b: b)
RULES['scatter-add'] = _scatter_impl(ops.add)
RULES['scatter_add'] = RULES['scatter-add']
RULES['scatter-mul'] = _scatter_impl(ops.mul)
RULES['scatter_mul'] = RULES['scatter-mul']
RULES['scatter_max'] = RULES['scatter-max'] = _scatter_impl(ops.maximum)
RULES['scatter_min'] = RULES['scatter-min'] = _scatter_impl(ops.minimum)


# reductions ---------------------------------------------------------------


def _reduce(x, axes, f):
  x = to_obj(x)
  axes = tuple(axes)
  keep = [d for d in range(x.ndim) if d not in axes]
  y = np.transpose(x, keep + list(axes)).reshape(
      [x.shape[d] for d in keep] + [-1])
  out = np.empty(y.shape[:-1], dtype=object)
  for i in np.ndindex(*out.shape):
    out[i] = f(y[i])
  return out


@rule('reduce_sum')
def _rsum(it, eqn, x, *, axes, **_):
  dt = np_dtype(eqn.outvars[0].aval)
  if dt.kind in 'iu':
    return [_reduce(x, axes, lambda v: functools.reduce(
        lambda a, b: ops.wrap(ops.add(a, b), dt), v, 0))]
  return [_reduce(x, axes, sum_scalars)]


def _fold(f, init):
  return lambda v: functools.reduce(f, v) if len(v) else init


RULES['reduce_max'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.maximum, None))]
RULES['reduce_min'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.minimum, None))]
RULES['reduce_prod'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.mul, 1))]
RULES['reduce_and'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.land, True))]
RULES['reduce_or'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.lor, False))]
RULES['reduce_xor'] = lambda it, eqn, x, *, axes, **_: [
    _reduce(x, axes, _fold(ops.lxor, False))]


def _arg(cmp):
  def f(it, eqn, x, *, axes, index_dtype, **_):
    def g(v):
      best, bi = v[0], 0
      for i in range(1, len(v)):
        c = cmp(v[i], best)
        best = ite(c, v[i], best)
        bi = ite(c, i, bi)
      return bi
    return [_reduce(x, axes, g)]
  return f


RULES['argmax'] = _arg(ops.gt)
RULES['argmin'] = _arg(ops.lt)


def _cum(f):
  def r(it, eqn, x, *, axis, reverse, **_):
    x = to_obj(x)
    dt = np_dtype(eqn.outvars[0].aval)
    y = np.moveaxis(x, axis, 0)
    if reverse:
      y = y[::-1]
    out = np.empty(y.shape, dtype=object)
    for i in range(y.shape[0]):
      if i == 0:
        out[0] = y[0]
      else:
        r = elementwise(f, out[i - 1], y[i])
        if dt.kind in 'iu':
          r = elementwise(lambda e: ops.wrap(e, dt), r)
        out[i] = r[()] if r.ndim == 0 else r
    if reverse:
      out = out[::-1]
    return [np.moveaxis(out, 0, axis)]
  return r


RULES['cumsum'] = _cum(ops.add)
RULES['cumprod'] = _cum(ops.mul)
RULES['cummax'] = _cum(ops.maximum)
RULES['cummin'] = _cum(ops.minimum)


@rule('dot_general')
def _dot_general(it, eqn, x, y, *, dimension_numbers, **_):
  (cx, cy), (bx, by) = dimension_numbers
  x, y = to_obj(x), to_obj(y)
  fx = [d for d in range(x.ndim) if d not in cx and d not in bx]
  fy = [d for d in range(y.ndim) if d not in cy and d not in by]
  X = np.transpose(x, list(bx) + fx + list(cx))
  Y = np.transpose(y, list(by) + fy + list(cy))
  bs = [x.shape[d] for d in bx]
  xs = [x.shape[d] for d in fx]
  ys = [y.shape[d] for d in fy]
  K = int(np.prod([x.shape[d] for d in cx], dtype=int))
  B, M, N = (int(np.prod(s, dtype=int)) for s in (bs, xs, ys))
  X = X.reshape(B, M, K)
  Y = Y.reshape(B, N, K)
  out = np.empty((B, M, N), dtype=object)
  dt = np_dtype(eqn.outvars[0].aval)
  for b in range(B):
    Xb = [list(r) for r in X[b]]
    Yb = [list(r) for r in Y[b]]
    for m in range(M):
      for n in range(N):
        out[b, m, n] = _dot1(Xb[m], Yb[n])
  if dt.kind in 'iu':
    out = elementwise(lambda e: ops.wrap(e, dt), out)
  return [out.reshape(bs + xs + ys)]


@rule('sort')
def _sort(it, eqn, *xs, dimension, num_keys, is_stable, **_):
  """Stable odd-even transposition network."""
  xs = [np.moveaxis(to_obj(x), dimension, -1).copy() for x in xs]
  n = xs[0].shape[-1]
  for lead in np.ndindex(*xs[0].shape[:-1]):
    rows = [list(x[lead]) for x in xs]
    for rnd in range(n):
      for i in range(rnd % 2, n - 1, 2):
        # swap when key[i] > key[i+1] lexicographically
        gt, eqs = False, True
        for k in range(num_keys):
          gt = b_or(gt, b_and(eqs, ops.gt(rows[k][i], rows[k][i + 1])))
          eqs = b_and(eqs, ops.eq(rows[k][i], rows[k][i + 1]))
        if gt is False:
          continue
        for r in rows:
          a, b = r[i], r[i + 1]
          r[i], r[i + 1] = ite(gt, b, a), ite(gt, a, b)
    for x, r in zip(xs, rows):
      for i in range(n):
        x[lead + (i,)] = r[i]
  return [np.moveaxis(x, -1, dimension) for x in xs]


# linear algebra -----------------------------------------------------------


@rule('lu')
def _lu(it, eqn, x, **_):
  """Factors stay hidden: only custom_linear_solve may use them."""
  avs = [v.aval for v in eqn.outvars]
  if x.shape[-2:] == (1, 1):
    return [x] + [np.zeros(a.shape, np_dtype(a)) for a in avs[1:]]
  return [filled(a.shape, OPAQUE) for a in avs]


@rule('lu_pivots_to_permutation')
def _lup(it, eqn, x, **_):
  if not is_sym(x):
    return bind_concrete(eqn.primitive, [x], eqn.params)
  return [filled(eqn.outvars[0].aval.shape, OPAQUE)]


def det(m):
  n = len(m)
  if n == 1:
    return m[0][0]
  s = 0
  for j in range(n):
    minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
    t = ops.mul(m[0][j], det(minor))
    s = ops.add(s, t) if j % 2 == 0 else ops.sub(s, t)
  return s


def solve_cofactor(m, b):
  """Solves m x = b for matrices up to 3x3 by Cramer's rule."""
  n = len(m)
  d = det(m)
  out = []
  for j in range(n):
    mj = [[b[i] if k == j else m[i][k] for k in range(n)] for i in range(n)]
    out.append(ops.div(det(mj), d))
  return out


@rule('custom_linear_solve')
def _cls(it, eqn, *args, const_lengths, jaxprs, **_):
  """Contract: the result solves matvec(x) = b."""
  hook = it.hooks.get('linear_solve')
  ncs = [const_lengths.matvec, const_lengths.vecmat, const_lengths.solve,
         const_lengths.transpose_solve]
  mv_consts = list(args[:ncs[0]])
  b = list(args[sum(ncs):])
  mv = jaxprs.matvec
  if hook is not None:
    return hook(it, eqn, mv, mv_consts, b)
  if len(b) != 1:
    raise Unsupported('linear solve of a tree')
  rhs = to_obj(b[0])
  # the matrix may act on the last axis, or on the last but one with columns
  def matvec(v):
    return it.sub(mv.jaxpr, mv.consts, mv_consts + [v])[0]
  base = to_obj(matvec(np.zeros(rhs.shape)))
  flat = rhs.reshape(-1)
  n = flat.size
  cols = []
  for k in range(n):
    e = np.zeros(n)
    e[k] = 1.0
    cols.append(to_obj(matvec(e.reshape(rhs.shape))).reshape(-1))
  # split into connected blocks
  adj = [{k} for k in range(n)]
  parent = list(range(n))
  def find(i):
    while parent[i] != i:
      parent[i] = parent[parent[i]]
      i = parent[i]
    return i
  for k in range(n):
    for i in range(n):
      v = cols[k][i]
      if not (type(v) in CONC and v == 0):
        parent[find(i)] = find(k)
  groups = {}
  for i in range(n):
    groups.setdefault(find(i), []).append(i)
  out = np.empty(n, dtype=object)
  for g in groups.values():
    if len(g) > 4:
      raise Unsupported(f'symbolic linear solve of size {len(g)}')
    m = [[cols[k][i] for k in g] for i in g]
    xs = solve_cofactor(m, [flat[i] for i in g])
    for i, v in zip(g, xs):
      out[i] = v
  return [out.reshape(rhs.shape)]


# --------------------------------------------------------------------------
# numpy fast paths for concrete sub-computations

NPFAST.update({
    'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'neg': np.negative,
    'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal,
    'gt': np.greater, 'ge': np.greater_equal, 'and': np.bitwise_and,
    'or': np.bitwise_or, 'xor': np.bitwise_xor, 'not': np.bitwise_not,
    'add_any': np.add,
})
MOVES = {'broadcast_in_dim', 'reshape', 'squeeze', 'expand_dims', 'transpose',
         'rev', 'slice', 'concatenate', 'iota', 'split'}

CALLS = {
    'pjit': 'jaxpr', 'jit': 'jaxpr', 'closed_call': 'call_jaxpr',
    'core_call': 'call_jaxpr',
    'custom_jvp_call': 'call_jaxpr', 'custom_vjp_call': 'call_jaxpr',
    'custom_vjp_call_jaxpr': 'fun_jaxpr', 'remat': 'jaxpr',
    'checkpoint': 'jaxpr', 'remat2': 'jaxpr', 'custom_vmap_call': 'call',
    'xla_pmap': 'call_jaxpr', 'custom_lin': 'jaxpr',
}
PRED_PASS = {'broadcast_in_dim', 'reshape', 'squeeze', 'expand_dims',
             'transpose', 'copy', 'slice'}


def bind_concrete(prim, args, params):
  with jcore.eval_context():
    out = prim.bind(*[jnp.asarray(a) if isinstance(a, np.ndarray) else a
                      for a in args], **params)
  outs = out if prim.multiple_results else [out]
  return [np_or_jax(o) for o in outs]


def np_or_jax(o):
  if isinstance(o, np.ndarray):
    return o
  if jax.dtypes.issubdtype(o.dtype, jax.dtypes.extended):
    return o
  return np.asarray(o)


def _subjaxprs(params):
  for v in params.values():
    if isinstance(v, (jcore.ClosedJaxpr, jcore.Jaxpr)):
      yield v.jaxpr if isinstance(v, jcore.ClosedJaxpr) else v
    elif isinstance(v, (tuple, list)):
      for w in v:
        if isinstance(w, (jcore.ClosedJaxpr, jcore.Jaxpr)):
          yield w.jaxpr if isinstance(w, jcore.ClosedJaxpr) else w


COLLECTIVE_NAMES = {'psum', 'psum2', 'psum_invariant', 'pmax', 'pmin',
                    'ppermute', 'axis_index', 'all_gather', 'all_to_all',
                    'reduce_scatter', 'pbroadcast', 'psum_scatter'}
_has_coll_cache = {}


def has_collectives(jaxpr):
  r = _has_coll_cache.get(id(jaxpr))
  if r is not None and r[1] is jaxpr:
    return r[0]
  res = False
  for e in jaxpr.eqns:
    if e.primitive.name in COLLECTIVE_NAMES:
      if e.primitive.name.startswith('p') and 'axes' in e.params and not e.params['axes']:
        continue
      res = True
      break
    if any(has_collectives(s) for s in _subjaxprs(e.params)):
      res = True
      break
  _has_coll_cache[id(jaxpr)] = (res, jaxpr)
  return res


class Interp:
  """Evaluates jaxprs for a number of lockstep lanes (devices)."""
  rules = RULES

  def __init__(self, lanes=1, axes=(), hooks=None):
    """axes: ordered (name, size) pairs whose product is `lanes`."""
    self.lanes = lanes
    self.axes = tuple(axes)
    self.hooks = hooks or {}
    self.preds = set()
    self.active = tuple(range(lanes))

  # -- helpers
  def fn1(self, name):
    f = self.hooks.get(name)
    def g(e):
      k = kind(e)
      if k in ('c', 'cb'):
        return CONCRETE_FN[name](e)
      if k == 'opaque':
        return e
      if k in ('u', 'b') and all(type(v) in CONC for v, _ in u_items(e)):
        return u_lift(CONCRETE_FN[name], e)
      if f is None:
        if name == 'log':           # meaningful only below an exponential
          v = Poly.var(f'log!{len(LOGS)}')
          LOGS[v.vars()[0]] = e
          return v
        if name == 'exp' and k == 'p' and len(e.t) == 1:
          (m, c), = e.t.items()
          if c == 1 and len(m) == 1 and m[0] in LOGS:
            return LOGS[m[0]]
        raise Unsupported(f'{name} of a symbolic value')
      return f(e)
    return g

  def is_pred(self, v):
    return v in self.preds if not isinstance(v, jcore.Literal) else False

  def sub(self, jaxpr, consts, args):
    """Single-lane evaluation of an inner jaxpr."""
    it = type(self)(1, (), self.hooks)
    return [o[0] for o in it.eval(jaxpr, [[c] for c in consts],
                                  [[a] for a in args])]

  def axis_groups(self, names):
    """Lane groups that a collective over `names` combines."""
    names = [n for n in (names if isinstance(names, (tuple, list)) else (names,))]
    mine = [n for n, _ in self.axes]
    for n in names:
      if n not in mine:
        raise Unsupported(f'collective over unknown axis {n}')
    sizes = [s for _, s in self.axes]
    groups = {}
    for lane in range(self.lanes):
      co = np.unravel_index(lane, sizes)
      key = tuple(c for c, (n, _) in zip(co, self.axes) if n not in names)
      groups.setdefault(key, []).append(
          (tuple(int(co[mine.index(n)]) for n in names), lane))
    return [[l for _, l in sorted(g)] for g in groups.values()]

  def axis_index_of(self, lane, names):
    names = names if isinstance(names, (tuple, list)) else (names,)
    mine = [n for n, _ in self.axes]
    sizes = [s for _, s in self.axes]
    co = np.unravel_index(lane, sizes)
    r = 0
    for n in names:
      r = r * sizes[mine.index(n)] + int(co[mine.index(n)])
    return r

  # -- evaluation
  def eval(self, jaxpr, consts, args):
    """consts, args: lists of per-lane lists."""
    env = {}
    L = self.lanes

    def read(v):
      if isinstance(v, jcore.Literal):
        return [np.asarray(v.val)] * L
      return env[v]

    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    last_use = {}
    for i, e in enumerate(jaxpr.eqns):
      for v in e.invars:
        if not isinstance(v, jcore.Literal):
          last_use[v] = i
    keep = {v for v in jaxpr.outvars if not isinstance(v, jcore.Literal)}
    for i, e in enumerate(jaxpr.eqns):
      outs = self.eqn(e, [read(v) for v in e.invars])
      for v, o in zip(e.outvars, outs):
        env[v] = o
      for v in e.invars:
        if not isinstance(v, jcore.Literal) and last_use.get(v) == i and (
            v not in keep):
          env.pop(v, None)
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, e, ins):
    """ins: per-input lists over lanes; returns per-output lists over lanes."""
    prim, params = e.primitive, e.params
    name = prim.name
    L = self.lanes
    if name in PRED_PASS and e.invars and self.is_pred(e.invars[0]):
      self.preds.add(e.outvars[0])
    if name == 'convert_element_type' and np_dtype(
        e.invars[0].aval) == np.dtype(bool):
      self.preds.add(e.outvars[0])

    if name in COLLECTIVE_NAMES:
      return self.collective(e, ins)
    if name == 'shard_map':
      return self.shard_map(e, ins)
    if name in CALLS:
      key = CALLS[name]
      jx = params.get(key)
      if jx is None:
        jx = next(v for v in params.values()
                  if isinstance(v, (jcore.ClosedJaxpr, jcore.Jaxpr)))
      if isinstance(jx, jcore.ClosedJaxpr):
        return self.eval(jx.jaxpr, [[np_or_jax(c)] * L for c in jx.consts], ins)
      return self.eval(jx, [], ins)
    if name == 'cond':
      return self.cond(e, ins)
    if name == 'while':
      return self.while_(e, ins)
    if name == 'scan':
      return self.scan(e, ins)

    outs = [[None] * L for _ in e.outvars]
    cache = {}
    for lane in range(L):
      xs = [v[lane] for v in ins]
      if self.lanes > 1:
        k = tuple(id(x) for x in xs)
        hit = cache.get(k)
        if hit is not None:
          for o, h in zip(outs, hit):
            o[lane] = h
          continue
      r = self.apply(e, xs)
      if self.lanes > 1:
        cache[k] = r
      for o, h in zip(outs, r):
        o[lane] = h
    return outs

  def apply(self, e, xs):
    name, params = e.primitive.name, e.params
    if not any(is_sym(x) for x in xs):
      f = NPFAST.get(name)
      if f is not None:
        dt = np_dtype(e.outvars[0].aval)
        with np.errstate(all='ignore'):
          return [np.asarray(f(*xs)).astype(dt, copy=False)]
      if name in MOVES:
        return [np.asarray(o) for o in RULES[name](self, e, *xs, **params)]
      return bind_concrete(e.primitive, xs, params)
    f = self.rules.get(name)
    if f is None:
      raise Unsupported(f'primitive {name}')
    STATS.prims += 1
    STATS.prim_names.add(name)
    settle = self.hooks.get('settle')
    if settle is not None and name == 'abs':
      def g(x):
        c = settle(ops.ge(x, 0)) if kind(x) in ('p', 'q', 'r') else None
        return x if c is True else ops.neg(x) if c is False else ops.absval(x)
      outs = [elementwise(g, *xs)]
    else:
      outs = f(self, e, *xs, **params)
    if settle is not None and name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
      outs = [elementwise(lambda c: settle(c), o) for o in outs]
    return [demote(o, np_dtype(v.aval)) for o, v in zip(outs, e.outvars)]

  # -- control flow
  def cond(self, e, ins):
    branches = e.params['branches']
    L = self.lanes
    preds = []
    for lane in range(L):
      p = np.asarray(ins[0][lane])[()]
      preds.append(p.item() if isinstance(p, np.generic) else p)
    args = ins[1:]
    def run(b, lanes):
      jx = branches[b]
      if len(lanes) == L:
        return self.eval(jx.jaxpr, [[np_or_jax(c)] * L for c in jx.consts], args)
      if has_collectives(jx.jaxpr):
        raise Unsupported('collective inside a branch not taken by all devices')
      res = None
      out = [[None] * L for _ in e.outvars]
      for l in lanes:
        it = type(self)(1, (), self.hooks)
        o = it.eval(jx.jaxpr, [[np_or_jax(c)] for c in jx.consts],
                    [[a[l]] for a in args])
        for k in range(len(out)):
          out[k][l] = o[k][0]
      return out
    n = len(branches)
    prune = self.hooks.get('prune')
    if prune is not None:
      def pruned(p):
        if isinstance(p, U):
          for v, g in p.d.items():
            if prune(g) is True:
              return v
          return p
        return p if isinstance(p, (bool, int)) else prune(p)
      preds = [pruned(p) for p in preds]
    conc = [isinstance(p, (bool, int)) for p in preds]
    if all(conc):
      idx = [min(max(int(p), 0), n - 1) for p in preds]
      if len(set(idx)) == 1:
        return run(idx[0], range(L))
      outs = [[None] * L for _ in e.outvars]
      for b in sorted(set(idx)):
        lanes = [l for l in range(L) if idx[l] == b]
        r = run(b, lanes)
        for k in range(len(outs)):
          for l in lanes:
            outs[k][l] = r[k][l]
      return outs
    # symbolic predicate: run every branch everywhere and merge
    STATS.branches += 1
    results = [run(b, range(L)) for b in range(n)]
    outs = [[None] * L for _ in e.outvars]
    for l in range(L):
      p = preds[l]
      sel = None
      for k in range(len(outs)):
        vals = [r[k][l] for r in results]
        if isinstance(p, (bool, int)):
          outs[k][l] = vals[min(max(int(p), 0), n - 1)]
          continue
        if isinstance(p, BX):
          guards = [b_not(p), p] if n == 2 else None
        else:
          cl = u_lift(lambda v: min(max(int(v), 0), n - 1), p)
          d = dict(u_items(cl))
          guards = [d.get(b, False) for b in range(n)]
        live = [(to_obj(v), g) for v, g in zip(vals, guards) if g is not False]
        outs[k][l] = demote(merge_arrays(live), np_dtype(e.outvars[k].aval))
    return outs

  def while_(self, e, ins):
    p = e.params
    L = self.lanes
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
    hook = self.hooks.get('while')
    if hook is not None:
      r = hook(self, e, cc, bc, carry)
      if r is not None:
        return r
    cj, bj = p['cond_jaxpr'], p['body_jaxpr']
    limit = self.hooks.get('while_limit', 4096)
    for _ in range(limit):
      c = self.eval(cj.jaxpr, [[np_or_jax(x)] * L for x in cj.consts], cc + carry)[0]
      vals = [np.asarray(x)[()] for x in c]
      vals = [v.item() if isinstance(v, np.generic) else v for v in vals]
      if any(not isinstance(v, bool) for v in vals):
        vals = [self.decide(v) for v in vals]
      if len(set(vals)) != 1:
        if has_collectives(bj.jaxpr):
          raise Unsupported('devices leave a loop at different times')
        new = self.eval(bj.jaxpr, [[np_or_jax(x)] * L for x in bj.consts], bc + carry)
        carry = [[n if v else o for n, o, v in zip(nn, oo, vals)]
                 for nn, oo in zip(new, carry)]
        continue
      if not vals[0]:
        return carry
      carry = self.eval(bj.jaxpr, [[np_or_jax(x)] * L for x in bj.consts], bc + carry)
    raise Unsupported('loop bound exceeded')

  def decide(self, v):
    f = self.hooks.get('decide')
    if f is None:
      raise Unsupported('loop condition depends on symbolic values')
    return f(v)

  def scan(self, e, ins):
    p = e.params
    L = self.lanes
    nc, nk = p['num_consts'], p['num_carry']
    consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    jx = p['jaxpr']
    n = p['length']
    ny = len(e.outvars) - nk
    ys = [[[None] * n for _ in range(L)] for _ in range(ny)]
    order = range(n - 1, -1, -1) if p['reverse'] else range(n)
    for i in order:
      step = [[np.asarray(x[l][i]) if not is_sym(x[l]) else _as_arr(x[l][i])
               for l in range(L)] for x in xs]
      out = self.eval(jx.jaxpr, [[np_or_jax(c)] * L for c in jx.consts],
                      consts + carry + step)
      carry = out[:nk]
      for k in range(ny):
        for l in range(L):
          ys[k][l][i] = out[nk + k][l]
    outs = list(carry)
    for k in range(ny):
      av = e.outvars[nk + k].aval
      col = []
      for l in range(L):
        if n == 0:
          col.append(np.zeros(av.shape, np_dtype(av)))
        elif any(is_sym(y) for y in ys[k][l]):
          col.append(np.stack([to_obj(y) for y in ys[k][l]]))
        else:
          col.append(np.stack([np.asarray(y) for y in ys[k][l]]))
      outs.append(col)
    return outs

  # -- devices
  def shard_map(self, e, ins):
    p = e.params
    mesh = p['mesh']
    names = list(mesh.axis_names)
    sizes = [mesh.shape[n] for n in names]
    P = int(np.prod(sizes))
    if self.lanes != 1:
      raise Unsupported('nested device mapping')
    in_names, out_names = _specs(p, 'in'), _specs(p, 'out')
    args = []
    for v, spec in zip(ins, in_names):
      args.append(_split_lanes(v[0], spec, names, sizes))
    it = Interp(P, list(zip(names, sizes)), self.hooks)
    jx = p['jaxpr']
    if isinstance(jx, jcore.ClosedJaxpr):
      outs = it.eval(jx.jaxpr, [[np_or_jax(c)] * P for c in jx.consts], args)
    else:
      outs = it.eval(jx, [], args)
    return [[_join_lanes(o, spec, names, sizes)]
            for o, spec in zip(outs, out_names)]

  def collective(self, e, ins):
    name, p = e.primitive.name, e.params
    L = self.lanes
    STATS.prims += 1
    STATS.prim_names.add(name)
    if name == 'axis_index':
      return [[np.asarray(self.axis_index_of(l, p['axis_name']), np.int32)
               for l in range(L)]]
    if name in ('psum', 'psum2', 'psum_invariant', 'pmax', 'pmin'):
      axes = p['axes']
      pos = tuple(a for a in axes if isinstance(a, int))
      nm = tuple(a for a in axes if not isinstance(a, int))
      if p.get('axis_index_groups') is not None:
        raise Unsupported('axis_index_groups')
      f = {'pmax': ops.maximum, 'pmin': ops.minimum}.get(name, ops.add)
      dt0 = np_dtype(e.invars[0].aval)
      if f is not ops.add and dt0 is not None and dt0.kind == 'u':
        f = _unsigned(f)
      outs = []
      for xs, ov in zip(ins, e.outvars):
        dt = np_dtype(ov.aval)
        if pos:
          xs = [_reduce(x, pos, functools.partial(functools.reduce, f))
                for x in xs]
        if nm:
          res = [None] * L
          for g in self.axis_groups(nm):
            if any(is_sym(xs[l]) for l in g):
              acc = to_obj(xs[g[0]])
              for l in g[1:]:
                acc = elementwise(f, acc, xs[l])
              if dt.kind in 'iu':
                acc = elementwise(lambda a: ops.wrap(a, dt), acc)
              acc = demote(acc, dt)
            else:
              nf = {'pmax': np.maximum, 'pmin': np.minimum}.get(name, np.add)
              acc = np.asarray(functools.reduce(nf, [xs[l] for l in g]), dt)
            for l in g:
              res[l] = acc
          xs = res
        outs.append(xs)
      return outs
    if name == 'ppermute':
      res = [[None] * L for _ in ins]
      for g in self.axis_groups(p['axis_name']):
        for k, xs in enumerate(ins):
          av = e.outvars[k].aval
          for l in g:
            res[k][l] = np.zeros(av.shape, np_dtype(av))
          for s, d in p['perm']:
            res[k][g[d]] = xs[g[s]]
      return res
    if name == 'all_gather':
      dim, tiled = p['all_gather_dimension'], p['tiled']
      res = [[None] * L for _ in ins]
      for g in self.axis_groups(p['axis_name']):
        for k, xs in enumerate(ins):
          vals = [to_obj(xs[l]) if any(is_sym(xs[m]) for m in g) else xs[l]
                  for l in g]
          r = (np.concatenate if tiled else np.stack)(vals, axis=dim)
          for l in g:
            res[k][l] = r
      return res
    if name == 'pbroadcast':
      if 'source' not in p:
        return list(ins)
      res = [[None] * L for _ in ins]
      for g in self.axis_groups(p['axis_name']):
        for k, xs in enumerate(ins):
          for l in g:
            res[k][l] = xs[g[p['source']]]
      return res
    if name == 'all_to_all':
      sa, ca, tiled = p['split_axis'], p['concat_axis'], p['tiled']
      res = [[None] * L for _ in ins]
      for g in self.axis_groups(p['axis_name']):
        n = len(g)
        for k, xs in enumerate(ins):
          parts = [np.split(to_obj(xs[l]), n, axis=sa) for l in g]
          for i, l in enumerate(g):
            ps = [parts[j][i] for j in range(n)]
            if tiled:
              res[k][l] = np.concatenate(ps, axis=ca)
            else:
              res[k][l] = np.stack([np.squeeze(q, axis=sa) for q in ps], axis=ca)
      return res
    raise Unsupported(f'collective {name}')


def _as_arr(x):
  if isinstance(x, np.ndarray):
    return x
  out = np.empty((), dtype=object)
  out[()] = x
  return out


def _specs(p, which):
  if which + '_names' in p:
    return p[which + '_names']
  specs = p[which + '_specs']
  res = []
  for s in specs:
    d = {}
    for i, a in enumerate(s):
      if a is not None:
        d[i] = a if isinstance(a, tuple) else (a,)
    res.append(d)
  return res


def _lane_coords(lane, sizes):
  return np.unravel_index(lane, sizes)


def _split_lanes(x, spec, names, sizes):
  P = int(np.prod(sizes))
  out = []
  for lane in range(P):
    co = _lane_coords(lane, sizes)
    y = x
    for dim, axs in spec.items():
      k, n = 0, 1
      for a in axs:
        k = k * sizes[names.index(a)] + int(co[names.index(a)])
        n *= sizes[names.index(a)]
      sz = y.shape[dim] // n
      idx = [slice(None)] * y.ndim
      idx[dim] = slice(k * sz, (k + 1) * sz)
      y = y[tuple(idx)]
    out.append(y)
  return out


def _join_lanes(outs, spec, names, sizes):
  P = int(np.prod(sizes))
  spec = dict(spec)
  if any(is_sym(o) for o in outs):
    outs = [to_obj(o) for o in outs]
  if not spec:
    return outs[0]
  shape = list(outs[0].shape)
  for dim, axs in spec.items():
    for a in axs:
      shape[dim] *= sizes[names.index(a)]
  res = np.empty(shape, dtype=outs[0].dtype)
  for lane in range(P):
    co = _lane_coords(lane, sizes)
    idx = [slice(None)] * len(shape)
    for dim, axs in spec.items():
      k = 0
      for a in axs:
        k = k * sizes[names.index(a)] + int(co[names.index(a)])
      sz = outs[lane].shape[dim]
      idx[dim] = slice(k * sz, (k + 1) * sz)
    res[tuple(idx)] = outs[lane]
  return res


def _erf_inv(v):
  from scipy.special import erfinv
  return float(erfinv(v))


LOGS = {}     # variables that stand for the logarithm of a term

CONCRETE_FN = {
    'sqrt': lambda v: math.sqrt(v) if v >= 0 else math.nan,
    'exp': lambda v: math.exp(v), 'log': lambda v: math.log(v),
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh,
    'rsqrt': lambda v: 1 / math.sqrt(v),
    'logistic': lambda v: 1 / (1 + math.exp(-v)),
    'log1p': math.log1p, 'expm1': math.expm1,
    'floor': lambda v: float(math.floor(v)),
    'ceil': lambda v: float(math.ceil(v)), 'round': lambda v: float(round(v)),
    'erf': math.erf, 'erf_inv': _erf_inv, 'cbrt': math.cbrt,
    'sinh': math.sinh, 'cosh': math.cosh, 'atan': math.atan,
}


# --------------------------------------------------------------------------
# Front ends


def spec_of(x, dtype=None):
  """ShapeDtypeStruct of a value that may be symbolic."""
  if is_sym(x):
    return jax.ShapeDtypeStruct(x.shape, dtype or default_float())
  a = np.asarray(x) if not hasattr(x, 'dtype') else x
  return jax.ShapeDtypeStruct(a.shape, jax.dtypes.canonicalize_dtype(a.dtype))


def default_float():
  return jnp.zeros(()).dtype


def trace(f, *specs):
  """Traces f over flat or tree arguments to a closed jaxpr and output tree."""
  closed, shape = jax.make_jaxpr(f, return_shape=True)(*specs)
  return closed, jax.tree_util.tree_structure(shape)


INTERP = Interp      # the interpreter used by `call`


def run_closed(closed, flat_args, lanes=1, axes=(), hooks=None):
  it = INTERP(lanes, axes, hooks)
  consts = [[np_or_jax(c)] * lanes for c in closed.consts]
  if lanes == 1:
    outs = it.eval(closed.jaxpr, consts, [[a] for a in flat_args])
    return [o[0] for o in outs]
  return it.eval(closed.jaxpr, consts, flat_args)


class Leaf:
  """Marks a symbolic array with its dtype inside a pytree of arguments."""

  def __init__(self, arr, dtype=None):
    self.arr = arr
    self.dtype = dtype


def call(f, *args, hooks=None, dtypes=None):
  """Symbolically executes f on a pytree of arrays (object arrays symbolic)."""
  flat, tree = jax.tree_util.tree_flatten(args)
  arrs, specs = [], []
  for a in flat:
    if isinstance(a, Leaf):
      arrs.append(a.arr)
      specs.append(jax.ShapeDtypeStruct(a.arr.shape, a.dtype or default_float()))
    elif is_sym(a):
      arrs.append(a)
      specs.append(jax.ShapeDtypeStruct(a.shape, default_float()))
    else:
      a = np.asarray(a)
      a = a.astype(jax.dtypes.canonicalize_dtype(a.dtype))
      arrs.append(a)
      specs.append(jax.ShapeDtypeStruct(a.shape, a.dtype))
  spec_args = jax.tree_util.tree_unflatten(tree, specs)
  closed, out_tree = trace(f, *spec_args)
  outs = run_closed(closed, arrs, hooks=hooks)
  return jax.tree_util.tree_unflatten(out_tree, outs)


def call_lanes(f, axis_name, n, per_lane_args, hooks=None):
  """Runs f on n devices with a bound axis; args are trees with leading n."""
  flat, tree = jax.tree_util.tree_flatten(per_lane_args)
  specs, lanes_args = [], []
  for a in flat:
    dt = None
    if isinstance(a, Leaf):
      a, dt = a.arr, a.dtype
    if not is_sym(a):
      a = np.asarray(a)
      a = a.astype(jax.dtypes.canonicalize_dtype(a.dtype))
      dt = a.dtype
    specs.append(jax.ShapeDtypeStruct(a.shape[1:], dt or default_float()))
    lanes_args.append([_as_arr(a[i]) if is_sym(a) else np.asarray(a[i])
                       for i in range(n)])
  spec_args = jax.tree_util.tree_unflatten(tree, specs)
  axis_env = [(axis_name, n)]
  closed, shape = jax.make_jaxpr(f, axis_env=axis_env, return_shape=True)(
      *spec_args)
  out_tree = jax.tree_util.tree_structure(shape)
  it = Interp(n, axis_env, hooks)
  outs = it.eval(closed.jaxpr, [[np_or_jax(c)] * n for c in closed.consts],
                 lanes_args)
  res = []
  for o in outs:
    if any(is_sym(v) for v in o):
      o = [to_obj(v) for v in o]
    res.append(np.stack(o))
  return jax.tree_util.tree_unflatten(out_tree, res)
