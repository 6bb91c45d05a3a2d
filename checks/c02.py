"""C02: exactness of the quadrature rules."""
import itertools

import numpy as np

from vlib import boot
boot.enable_x64()
# pylint: disable=g-import-not-at-top
from vlib.harness import Rand
from vlib.jsym import obj_array, to_obj
from vlib.sym import Poly
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D

TYPES = {'gl': NodeType.GAUSS_LEGENDRE, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE,
         'nc': NodeType.NEWTON_COTES}


def degree(t, n):
  return {'gl': 2 * n - 1, 'gll': 2 * n - 3, 'nc': 1}[t]


def legendre_basis(x, deg):
  """Legendre values, a well conditioned basis of the polynomials."""
  ps = [np.ones_like(x), x]
  for m in range(1, deg):
    ps.append(((2 * m + 1) * x * ps[m] - m * ps[m - 1]) / (m + 1))
  return ps[:deg + 1]


def rule_exact(h, *, t, n, ndim, via_nodes):
  h.func('Quadrature1D.create', 'Quadrature1D.create_from_nodes_1d',
         'Quadrature1D.weights_nd', 'Nodes1D.create')
  h.bound('rules with 2..20 points (32 thorough; Gauss-Legendre from 1) in 1-D and up to 4 '
          'points in 2-D and 3-D; Legendre coefficients in [-1, 1]')
  h.assume('real arithmetic on double precision nodes and weights, '
           'tolerance 1e-9')
  deg = degree(t, n)

  def rule():
    nodes = Nodes1D.create(num_points=n, node_type=TYPES[t])
    q = (Quadrature1D.create_from_nodes_1d(nodes) if via_nodes else
         Quadrature1D.create(num_points=n, quadrature_type=TYPES[t]))
    return nodes, q

  def structure():
    nodes, q = rule()
    x = np.asarray(q.nodes.node_values)
    w = np.asarray(q.weights)
    if x.shape != (n,) or w.shape != (n,):
      return f'{x.shape} nodes and {w.shape} weights for {n} points'
    if not np.array_equal(x, np.asarray(nodes.node_values)):
      return 'nodes of the rule differ from the nodes of the family'
    if q.num_points != n or q.nodes.num_points != n:
      return 'num_points is wrong'
    if not np.all(np.diff(x) > 0):
      return f'nodes are not increasing: {x}'
    if not np.all(w > 0):
      return f'weights are not positive: {w}'
    if t != 'gl' and not (x[0] == -1 and x[-1] == 1):
      return f'end points are missing: {x}'
    if t == 'gl' and not (x[0] > -1 and x[-1] < 1):
      return f'nodes are not interior: {x}'
    if t == 'nc' and not np.allclose(np.diff(x), 2 / (n - 1), atol=1e-12):
      return f'nodes are not equally spaced: {x}'
    return None

  h.smoke(structure)
  d = structure()
  if d is not None:
    h.fail(d, {'type': t, 'n': n})

  shape = (deg + 1,) * ndim

  def sides(c):
    _, q = rule()
    x = np.asarray(q.nodes.node_values, dtype=np.float64)
    B = np.stack(legendre_basis(x, deg))            # (deg+1, n)
    w = np.asarray(q.weights_nd(ndim), dtype=np.float64)
    if w.shape != (n ** ndim,):
      return None, f'weights_nd has shape {w.shape}'
    # value at the tensor node with the first direction slowest
    Bn = B
    for _ in range(ndim - 1):
      Bn = np.einsum('ai,bj->abij', Bn.reshape(-1, Bn.shape[-1]), B).reshape(
          -1, Bn.shape[-1] * n)
    got = 0
    for m, i in enumerate(np.ndindex(*shape)):
      got = got + c[i] * float(Bn[m] @ w)
    want = c[(0,) * ndim] * float(2 ** ndim)
    return got, want

  def run(env):
    c = np.array([env.get('c[' + ','.join(map(str, i)) + ']', 0.0)
                  for i in np.ndindex(*shape)]).reshape(shape)
    got, want = sides(c)
    if got is None:
      return want
    return None if abs(got - want) <= 1e-7 else f'{got!r} instead of {want!r}'

  h.smoke(lambda: run(Rand(h.nprng, None, 1.0)))
  c = obj_array(shape, lambda i: Poly.var('c[' + ','.join(map(str, i)) + ']'))
  got, want = sides(c)
  if got is None:
    h.fail(want, {'type': t, 'n': n, 'ndim': ndim})
  h.close([to_obj(got)], [to_obj(want)], run, tol=1e-9,
          label=f'{t} n={n} ndim={ndim} degree {deg}')


def single_weights(h):
  """Tensor weights pair with tensor nodes of an asymmetric probe."""
  h.func('Quadrature1D.weights_nd')
  # with distinct symbolic 1-D weights the order of the product is visible
  import dataclasses
  n = 3
  q0 = Quadrature1D.create(num_points=n, quadrature_type=NodeType.GAUSS_LEGENDRE)
  w = obj_array((n,), lambda i: Poly.var(f'w[{i[0]}]'))

  for ndim in (1, 2, 3):
    def sides(w):
      q = q0.replace(weights=w)
      got = np.asarray(q.weights_nd(ndim))
      want = np.empty(n ** ndim, dtype=got.dtype)
      for k, i in enumerate(itertools.product(range(n), repeat=ndim)):
        r = 1
        for j in i:
          r = w[j] * r
        want[k] = r
      return got, want
    def run(env):
      from vlib.harness import compare
      wv = np.array([env.get(f'w[{i}]', 0.0) for i in range(n)])
      got, want = sides(wv)
      return compare([got], [want], 1e-9)
    h.smoke(lambda run=run: run(Rand(h.nprng, None, 1.0)))
    got, want = sides(w)
    h.close([got], [want], run, tol=1e-9, label=f'order of weights {ndim}-D')


def harnesses(tier):
  out = []
  top = 32 if tier == 'thorough' else 20
  for t in TYPES:
    for n in range(1 if t == 'gl' else 2, top + 1):
      out.append((f'{t} n={n}', rule_exact,
                  dict(t=t, n=n, ndim=1, via_nodes=bool(n % 2))))
    for ndim in (2, 3):
      for n in range(1 if t == 'gl' else 2, (6 if tier == 'thorough' else 4) + 1):
        out.append((f'{t} n={n} ndim={ndim}', rule_exact,
                    dict(t=t, n=n, ndim=ndim, via_nodes=bool(n % 2))))
  out.append(('weight order', single_weights))
  return out
