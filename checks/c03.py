"""C03: extrapolation and backward differentiation coefficients."""
import numpy as np

from vlib import boot
boot.enable_x64()
# pylint: disable=g-import-not-at-top
from vlib.jsym import to_obj
from vlib.sym import Poly
from swirl_fem.navier_stokes import navier_stokes as ns


def _coeffs(f, k, h, label):
  got = np.asarray(f(k), dtype=np.float64)
  if got.shape != (k + 1,):
    h.fail(f'{label}({k}) has shape {got.shape}', {'k': k})
  return got


def poly_history(h, *, k, which):
  """sum_j c_j q(t_j) against h q'(t_k) or q(t_{k+1}) for a symbolic q.

  Sample times t_j = t + j s / k span the window s, so the step is s / k.
  """
  f = ns.bdfk_coeffs if which == 'bdf' else ns.extk_coeffs
  h.func('navier_stokes.' + ('bdfk_coeffs' if which == 'bdf' else 'extk_coeffs'),
         'BarycentricInterpolator.interpolation_matrix',
         'BarycentricInterpolator.interpolation_matrix_grad')
  h.bound('orders up to %d; polynomial coefficients and origin in [-1, 1], '
          'window of k steps in [0, 1]' % k)
  h.assume('real arithmetic on double precision coefficients, tolerance 1e-7')
  cs = np.array([Poly.var(f'c{m}') for m in range(k + 1)], dtype=object)
  t, s = Poly.var('t'), Poly.var('s')

  def q(x, cs):
    r = 0
    for c in reversed(cs):
      r = r * x + c
    return r

  def dq(x, cs):
    r = 0
    for m in reversed(range(1, len(cs))):
      r = r * x + m * cs[m]
    return r

  def sides(cs, t, s):
    coef = _coeffs(f, k, h, which)
    got = 0
    for j in range(k + 1):
      got = got + q(t + s * (j / k), cs) * float(coef[j])
    if which == 'bdf':
      want = s * (1 / k) * dq(t + s, cs)
    else:
      want = q(t + s * ((k + 1) / k), cs)
    return got, want

  def run(env):
    c = [env.get(f'c{m}', 0.0) for m in range(k + 1)]
    got, want = sides(c, env.get('t', 0.0), env.get('s', 1.0))
    return None if abs(got - want) <= 1e-6 else (
        f'order {k}: {got!r} instead of {want!r} '
        f'(coefficients {f(k).tolist()})')

  from vlib.harness import Rand
  h.smoke(lambda: run(Rand(h.nprng, None, 1.0)))
  got, want = sides(list(cs), t, s)
  h.close([to_obj(got)], [to_obj(want)], run, tol=1e-7, box={'s': (0.0, 1.0)},
          label=f'{which}{k}')


def harnesses(tier):
  ks = range(1, 13 if tier == 'thorough' else 9)
  return [(f'{w} k={k}', poly_history, dict(k=k, which=w))
          for k in ks for w in ('bdf', 'ext')]
