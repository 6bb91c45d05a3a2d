"""C01: interpolation and differentiation reproduce polynomials."""
import itertools

import numpy as np

from vlib import boot
boot.enable_x64()
# pylint: disable=g-import-not-at-top
from vlib import dse, jsym, sym
from vlib.harness import Rand, compare, concretise
from vlib.jsym import obj_array
from vlib.query import solve, z3_number
from vlib.sym import Poly, Rat
from swirl_fem.core.interpolation import (BarycentricInterpolator, Nodes1D,
                                          NodeType)

TYPES = {'gl': NodeType.GAUSS_LEGENDRE, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE,
         'nc': NodeType.NEWTON_COTES}


def nodes(spec):
  if isinstance(spec, float):
    return Nodes1D.create_single_point(spec)
  return Nodes1D.create(num_points=spec[1], node_type=TYPES[spec[0]])


def legendre(x, n, der=False):
  """Legendre values (or derivatives) at scalar points, degrees 0..n-1."""
  x = np.asarray(x, dtype=np.float64)
  out = []
  for m in range(n):
    c = np.zeros(m + 1)
    c[m] = 1
    p = np.polynomial.legendre.Legendre(c)
    out.append((p.deriv() if der else p)(x) + 0 * x)
  return np.stack(out, axis=-1)         # (points, degrees)


def tensor_eval(mats, c):
  """sum_k c[k] prod_d mats[d][:, k_d], first direction slowest."""
  for m in mats:
    # contract the leading axis of c; append the points axis at the end
    c = np.moveaxis(np.tensordot(m, c, axes=(1, 0)), 0, -1)
  return c.reshape(-1)


def concrete_points(h, *, grid, ev, ndim):
  h.func('BarycentricInterpolator.interpolate',
         'BarycentricInterpolator.interpolate_grad',
         'BarycentricInterpolator.interpolation_matrix',
         'BarycentricInterpolator.interpolation_matrix_grad', 'Nodes1D.create')
  h.bound('fixed evaluation nodes: all families, up to 20 nodes (uniform: '
          '12) in 1-D, 4 in 2-D, 3 in 3-D; Legendre coefficients in [-1, 1]')
  h.assume('real arithmetic on double precision matrices, tolerance 1e-7')
  n = grid[1]
  shape = (n,) * ndim
  c = obj_array(shape, lambda i: Poly.var('c' + str(i)))

  def sides(c):
    g, e = nodes(grid), nodes(ev)
    bi = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g, evalpoints_1d=e)
    x = np.asarray(g.node_values, dtype=np.float64)
    y = np.asarray(e.node_values, dtype=np.float64)
    vals = tensor_eval([legendre(x, n)] * ndim, c)
    L, D = legendre(y, n), legendre(y, n, True)
    want = tensor_eval([L] * ndim, c)
    grad = np.stack([tensor_eval([D if a == b else L for b in range(ndim)], c)
                     for a in range(ndim)], axis=-1)
    return bi, vals, want, grad

  def run(env):
    cc = concretise(c, env)
    bi, vals, want, grad = sides(cc)
    v = np.asarray(vals, dtype=np.float64)
    return compare([bi.interpolate(v), bi.interpolate_grad(v)], [want, grad],
                   1e-6)

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, None, 1.0)))
  bi, vals, want, grad = sides(c)
  got = jsym.call(bi.interpolate, vals)
  dgot = jsym.call(bi.interpolate_grad, vals)
  h.close([got, dgot], [want, grad], run, tol=1e-7,
          label=f'{grid} at {ev} in {ndim}-D')


def rat_parts(e):
  if isinstance(e, Rat):
    return e.n, e.d
  return sym.poly_of(e), sym.poly_of(1)


def symbolic_point(h, *, grid, ndim):
  """The matrices at a symbolic evaluation point, as rational functions."""
  from fractions import Fraction
  h.func('BarycentricInterpolator._interpolation_matrix_1d',
         'BarycentricInterpolator._differentiation_matrix_1d')
  n = grid[1]
  lim = 2
  h.bound(f'symbolic evaluation point in [-{lim}, {lim}] (away from grid '
          'points, which the fixed points cover), up to 6 nodes, any nodal '
          'polynomial of degree below the number of nodes')
  h.assume('exact rational arithmetic on the double precision nodes and '
           'barycentric weights, relative tolerance 1e-7')
  sym.set_exact(True)
  try:
    g = nodes(grid)
    xs = np.asarray(g.node_values, dtype=np.float64)
    X = Poly.var('x')

    def matrices(v):
      pt = Nodes1D(num_points=1, node_type=NodeType.SINGLE, node_values=v)
      bi = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g,
                                   evalpoints_1d=pt)
      return bi.interpolation_matrix(), bi.interpolation_matrix_grad()

    # oracle: exact Lagrange polynomials and derivatives on the same nodes
    fx = [Fraction(float(v)) for v in xs]

    def lagrange(i):
      p = 1
      for j in range(n):
        if j != i:
          p = (X - fx[j]) * p * (1 / (fx[i] - fx[j]))
      return p

    def dlagrange(i):
      s = 0
      for k in range(n):
        if k == i:
          continue
        p = 1 / (fx[i] - fx[k])
        for j in range(n):
          if j not in (i, k):
            p = (X - fx[j]) * p * (1 / (fx[i] - fx[j]))
        s = p + s
      return s

    L = [lagrange(i) for i in range(n)]
    D = [dlagrange(i) for i in range(n)]
    def claims(M, G):
      """(label, entry of the code's matrices, exact value)."""
      value = lambda e: e.v if isinstance(e, dse.SymReal) else e
      for k, idx in enumerate(itertools.product(range(n), repeat=ndim)):
        p = 1
        for i in idx:
          p = L[i] * p
        yield f'value basis {idx}', value(M[0, k]), p
        for a in range(ndim):
          p = 1
          for b, i in enumerate(idx):
            p = (D[i] if a == b else L[i]) * p
          yield f'd/dx{a} basis {idx}', value(G[0, k, a]), p

    def run(env):
      v = env['x']
      if v in xs.tolist():
        return None
      m, gg = matrices(np.array([v]))
      from scipy.interpolate import lagrange as sl
      del sl
      lv = np.array([np.prod([(v - xs[j]) / (xs[i] - xs[j])
                              for j in range(n) if j != i]) for i in range(n)])
      dv = np.array([sum(np.prod([(v - xs[j]) / (xs[i] - xs[j]) for j in
                                  range(n) if j not in (i, k)])
                         / (xs[i] - xs[k]) for k in range(n) if k != i)
                     for i in range(n)])
      want = lv
      for _ in range(ndim - 1):
        want = np.kron(want, lv)
      wg = []
      for a in range(ndim):
        r = np.ones(1)
        for b in range(ndim):
          r = np.kron(r, dv if a == b else lv)
        wg.append(r)
      return compare([m[0], gg[0]], [want, np.stack(wg, -1)], 1e-6)

    h.smoke(lambda: (lambda v: (run({'x': v}), {'x': v}))(
        float(h.nprng.uniform(-lim, lim))))
    import z3
    x = sym.real_var(Poly.ids['x'])
    tol = sym.rat(1e-7)
    count = [0]

    def path(p):
      pv = np.empty(1, dtype=object)
      pv[0] = dse.SymReal(X)
      for label, e, want in claims(*matrices(pv)):
        num, den = rat_parts(e)
        d = sym.poly_of(num - want * den)
        # |num - want den| <= tol |den|: as a polynomial inequality in x
        zd, zn = sym.poly_z3(sym.poly_of(den)), sym.poly_z3(d)
        bad = z3.Or(zn > tol * z3.If(zd >= 0, zd, -zd),
                    -zn > tol * z3.If(zd >= 0, zd, -zd))
        sym.STATS.obligations += 1
        count[0] += 1
        m = solve(p.cond + [bad], timeout_ms=60000)
        if m is not None:
          env = {'x': float(z3_number(m.eval(x, True)))}
          r = run(env)
          if r is None:
            for v in (0.3, -0.7, 1.5, -1.9, 0.123):
              if r is None:
                env = {'x': v}
                r = run(env)
          if r is None:
            from vlib.harness import Unreproduced
            raise Unreproduced(f'{h.name}: {label} at {env}')
          h.fail(f'{label}: {r}', env)

    # in double precision the formula is accurate up to the nodes; in exact
    # arithmetic the nodes themselves are excluded (a pole of the formula)
    paths = dse.explore(path, [x >= -lim, x <= lim] + [
        x != sym.rat(v) for v in xs], max_paths=400)
    h.sample(grid=grid, ndim=ndim, claims=count[0], paths=paths)
  finally:
    sym.set_exact(False)


def invalid(h):
  """SINGLE grids are rejected."""
  def one():
    try:
      BarycentricInterpolator(
          ndim=1, gridpoints_1d=Nodes1D.create_single_point(0.5),
          evalpoints_1d=nodes(('gll', 3))).interpolation_matrix()
    except ValueError:
      return None
    return 'a single grid point is accepted as a grid'
  h.smoke(one)
  solve([])


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for t in TYPES:
    lo = 1 if t == 'gl' else 2
    for n in range(lo, (13 if th else 8) + 1):
      evs = [('gl', n), ('gll', max(2, n)), ('nc', max(2, n)), ('gl', n + 2),
             ('gll', 3), ('gll', 2 * n - 1 if n > 1 else 2), ('nc', 5),
             0.25, 1.5, -1.75, 1.0, -1.0, 0.0]
      if n > 9:
        evs = evs[:5]
      for ev in dict.fromkeys(evs):
        if t == 'nc' and n > 9:
          continue
        out.append((f'{t}{n} at {ev}', concrete_points,
                    dict(grid=(t, n), ev=ev, ndim=1)))
    for n in (11, 14, 20) if t != 'nc' else (10, 12):
      for ev in (('gl', n), ('gll', n + 1), 0.375):
        out.append((f'{t}{n} at {ev}', concrete_points,
                    dict(grid=(t, n), ev=ev, ndim=1)))
    for ndim, top in ((2, 5 if th else 4), (3, 4 if th else 3)):
      for n in range(lo, top + 1):
        for ev in [('gl', n), ('gll', 3), ('nc', max(2, n)), 0.25, -1.0, 1.5]:
          out.append((f'{t}{n} at {ev} ndim={ndim}', concrete_points,
                      dict(grid=(t, n), ev=ev, ndim=ndim)))
    for n in range(max(lo, 2), (8 if th else 6) + 1):
      out.append((f'symbolic point {t}{n}', symbolic_point,
                  dict(grid=(t, n), ndim=1)))
    for n in range(max(lo, 2), (4 if th else 3) + 1):
      for ndim in (2, 3):
        out.append((f'symbolic point {t}{n} ndim={ndim}', symbolic_point,
                    dict(grid=(t, n), ndim=ndim)))
  out.append(('invalid grids', invalid))
  return out
