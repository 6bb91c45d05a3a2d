"""C27: training schedules stay within bounds and reach their targets."""
import math

import numpy as np
import z3

from vlib import boot, jsym, sym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax.numpy as jnp
from vlib.harness import Unreproduced
from vlib.query import solve, z3_number
from vlib.sym import Poly, STATS, as_real, rat
from swirl_fem.niles import train

TOL = 1e-9


class Config(dict):
  """A configuration that may hold symbols."""
  __getattr__ = dict.__getitem__


class Cosine:
  """The cosine as an uninterpreted function: range, end points, monotone."""

  def __init__(self):
    self.pts = []

  def __call__(self, e):
    v = Poly.var(f'cos!{len(self.pts)}')
    self.pts.append((as_real(e), as_real(v)))
    return v

  def facts(self):
    out, pi = [], rat(math.pi)
    for x, c in self.pts:
      out += [c >= -1, c <= 1, z3.Implies(x == 0, c == 1),
              z3.Implies(x == pi, c == -1)]
    for i, (x, c) in enumerate(self.pts):
      for y, d in self.pts[:i]:
        for a, b, p, q in ((x, y, c, d), (y, x, d, c)):
          out.append(z3.Implies(z3.And(0 <= a, a <= b, b <= pi), p >= q))
    return out


CONFIGS = [   # warm-up epochs, epochs, steps per epoch
    (1.0, 15.0, 10), (2, 2, 7), (0, 5, 3), (0.5, 3.0, 8), (3, 1, 5), (1, 90, 1),
    (1.0, 15.0, 4800)]
KL = [   # zero epochs, transition epochs, steps per epoch
    (0, 10.0, 9), (2, 3, 5), (1.5, 0.5, 4), (4, 1, 1), (0, 10.0, 4800)]


def lr_case(kind, warm, epochs, spe):
  cfg = Config(warmup_epochs=warm, num_epochs=epochs)
  make = {'cosine': train.create_learning_rate_fn,
          'updown': train.create_updown_learning_rate_fn}[kind]
  up = warm * spe
  end = up + (max(epochs - warm, 1) * spe if kind == 'cosine' else up)
  return (lambda b: make(cfg, b, spe)), up, end


def learning_rate(h, *, kind, warm, epochs, spe):
  h.func('train.create_learning_rate_fn',
         'train.create_updown_learning_rate_fn')
  h.bound('seven combinations of warm-up length, epochs and steps per epoch; '
          'every pair of integer steps up to twice the schedule, every base '
          'rate in (0, 1]')
  h.assume('the cosine is any function with its range and end points that '
           'decreases on [0, pi]')
  make, up, end = lr_case(kind, warm, epochs, spe)
  top = 2 * end + 5

  def claims(s, t, b, fs, ft, le, eq, imp, both):
    """Holds for steps s <= t; used with terms and with floats."""
    out = {
        'never negative': le(0, fs),
        'never above the base rate': le(fs, b),
        'increases during warm-up': imp(le(t, up), le(fs, ft)),
        'decreases after warm-up': imp(le(up, s), le(ft, fs)),
        'base rate at the end of warm-up': imp(eq(s, up), eq(fs, b)),
        'zero at the end': imp(le(end, s), eq(fs, 0)),
    }
    if up > 0:
      out['starts from zero'] = imp(eq(s, 0), eq(fs, 0))
    return out

  def f(s, t, b):
    g = make(b)
    return g(s), g(t)
  check(h, f, claims, top, 1.0)


def penalty(h, *, zero, trans, spe):
  h.func('train.create_kl_penalty_fn')
  h.bound('five combinations of zero, transition and epoch lengths; every '
          'pair of integer steps up to twice the schedule, every final '
          'penalty in (0, 1]')
  z, end = zero * spe, (zero + trans) * spe

  def make(b):
    cfg = Config(kl_penalty=b, kl_transition_epochs=trans,
                 kl_zero_epochs=zero)
    return train.create_kl_penalty_fn(cfg, spe)

  def claims(s, t, b, fs, ft, le, eq, imp, both):
    return {
        'never negative': le(0, fs), 'never above the final value': le(fs, b),
        'monotone': le(fs, ft),
        'starts from zero': imp(le(s, z), eq(fs, 0)),
        'final value at the end': imp(le(end, s), eq(fs, b)),
    }

  def f(s, t, b):
    g = make(b)
    return g(s), g(t)
  check(h, f, claims, 2 * end + 5, 1.0)


def check(h, f, claims, top, bmax):
  def concrete(s, t, b):
    fs, ft = [float(x) for x in f(int(s), int(t), float(b))]
    tol = 1e-6
    r = claims(s, t, b, fs, ft, lambda x, y: x <= y + tol,
               lambda x, y: abs(x - y) <= tol, lambda p, q: (not p) or q, all)
    for k, v in r.items():
      if not v:
        return f'{k}: steps {s}, {t}, base {b}: {fs}, {ft}'
    return None

  for _ in range(3):
    s, t = sorted(h.nprng.integers(0, int(top) + 1, size=2).tolist())
    b = float(h.nprng.uniform(0.01, bmax))
    h.smoke(lambda s=s, t=t, b=b: concrete(s, t, b))

  cos = Cosine()
  sv, tv, bv = (jsym.poly_vars(n, ()) for n in 'stb')
  gs, gt = jsym.call(f, jsym.Leaf(sv, np.int32), jsym.Leaf(tv, np.int32), bv,
                     hooks={'cos': cos})
  si, ti = z3.Int('si'), z3.Int('ti')
  s, t, b = [as_real(np.asarray(x).item()) for x in (sv, tv, bv)]
  fs, ft = [as_real(np.asarray(x).item()) for x in (gs, gt)]
  base = [s == z3.ToReal(si), t == z3.ToReal(ti), s >= 0, s <= t,
          t <= rat(top), b > 0, b <= rat(bmax)] + cos.facts()
  h.witness(base)
  eps = rat(TOL)
  cl = claims(s, t, b, fs, ft,
              lambda x, y: num(x) <= num(y) + (eps if touches(x, y, fs, ft)
                                               else 0),
              lambda x, y: (z3.And(num(x) - num(y) <= eps,
                                   num(y) - num(x) <= eps)
                            if touches(x, y, fs, ft) else num(x) == num(y)),
              z3.Implies, z3.And)
  for k, c in cl.items():
    STATS.obligations += 1
    m = solve(base + [z3.Not(c)])
    if m is not None:
      v = [z3_number(m.eval(x, True)) for x in (si, ti, b)]
      d = concrete(*v)
      if d is None:
        raise Unreproduced(f'{h.name}: {k}: {v}')
      h.fail(d, dict(s=v[0], t=v[1], base=v[2]))
  h.sample(claims=list(cl))


def num(x):
  return x if z3.is_expr(x) else rat(x)


def touches(x, y, *values):
  return any(z3.is_expr(v) and v.eq(w) for v in (x, y) for w in values)


def harnesses(tier):
  out = []
  for w, e, s in CONFIGS:
    for kind in ('cosine', 'updown'):
      if kind == 'updown' and w == 0:
        continue
      out.append((f'{kind} warm-up {w} of {e} epochs of {s} steps',
                  learning_rate, dict(kind=kind, warm=w, epochs=e, spe=s)))
  for z, t, s in KL:
    out.append((f'penalty zero {z} transition {t} steps {s}', penalty,
                dict(zero=z, trans=t, spe=s)))
  return out
