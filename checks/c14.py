"""C14: the Poisson solver poses the right discrete problem."""
import contextlib
import itertools
import numbers

import numpy as np
import z3

from vlib import boot, dse, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.dse import SymInt
from vlib.harness import Unreproduced
from vlib.sym import STATS
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh import Mesh
from swirl_fem.examples import poisson
from swirl_fem.examples.poisson import BCType
import swirl_fem.linalg.cg as swirl_cg

numbers.Number.register(SymInt)     # np.isscalar treats it as a number

NODE = {'nc': NodeType.NEWTON_COTES, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE}

# per dimension: a matrix and an offset applied to a tensor grid
AFFINE = {
    1: (np.array([[0.7]]), np.array([0.3])),
    2: (np.array([[0.8, 0.3], [-0.2, 1.1]]), np.array([0.3, -0.1])),
    3: (np.array([[0.8, 0.3, 0.1], [-0.2, 1.1, 0.2], [0.1, -0.3, 0.9]]),
        np.array([0.1, 0.0, 0.4])),
}
SHAPES = {'line': (3,), 'line2': (2,), 'strip': (2, 1), 'square': (2, 2),
          'cube': (1, 1, 1), 'bar': (2, 1, 1), 'one': (1, 1), 'seg': (1,)}


def layout(shape, order, kind, curved):
  """Coordinates, elements, sides and the nodes of each side."""
  dims = SHAPES[shape]
  coords, els, sides, _ = meshes.grid(dims, order, kind=kind)
  if curved:
    # every element is the multilinear image of a cube
    corners, cels, _, _ = meshes.grid(dims, 1)
    corners = meshes.warp_smooth(corners)
    ref = (meshes.nodes_1d(kind, order + 1) + 1) / 2
    lin = np.stack([1 - ref, ref], axis=-1)          # (n, 2)
    out = coords.copy()
    for e, c in zip(els, cels):
      for a, i in enumerate(itertools.product(range(order + 1),
                                              repeat=len(dims))):
        w = np.array([np.prod([lin[i[d], b[d]] for d in range(len(dims))])
                      for b in itertools.product((0, 1), repeat=len(dims))])
        out[e[a]] = w @ corners[c]
    coords = out
  else:
    stretched = coords * (1 + 0.25 * coords) if order == 1 else coords
    m, b = AFFINE[len(dims)]
    coords = stretched @ m.T + b
  return coords, els, sides


def lagrange(x1, pts):
  """Values and derivatives of the Lagrange basis, by divided products."""
  n = len(x1)
  v = np.ones((len(pts), n))
  d = np.zeros((len(pts), n))
  for j in range(n):
    others = [k for k in range(n) if k != j]
    den = np.prod([x1[j] - x1[k] for k in others])
    v[:, j] = np.prod([pts - x1[k] for k in others], axis=0) / den if (
        others) else 1.0
    for m in others:
      rest = [k for k in others if k != m]
      d[:, j] += (np.prod([pts - x1[k] for k in rest], axis=0) if rest else
                  np.ones(len(pts))) / den
  return v, d


def matrices(coords, els, order, kind):
  """Assembled stiffness and mass matrices with high-order Gauss points."""
  ndim = coords.shape[1]
  x1 = meshes.nodes_1d(kind, order + 1)
  g, w = np.polynomial.legendre.leggauss(order + 5)
  v, d = lagrange(x1, g)
  q = list(itertools.product(range(len(g)), repeat=ndim))
  i = list(itertools.product(range(order + 1), repeat=ndim))
  phi = np.array([[np.prod([v[a[k], b[k]] for k in range(ndim)]) for b in i]
                  for a in q])
  dphi = np.array([[[np.prod([(d if k == m else v)[a[k], b[k]]
                              for k in range(ndim)]) for m in range(ndim)]
                    for b in i] for a in q])
  ws = np.array([np.prod([w[k] for k in a]) for a in q])
  n = len(coords)
  km, mm = np.zeros((n, n)), np.zeros((n, n))
  for e in els:
    x = coords[e]
    jac = np.einsum('qbm,bx->qxm', dphi, x)
    det = np.linalg.det(jac)
    assert (det > 0).all()
    grad = np.einsum('qbm,qmx->qbx', dphi, np.linalg.inv(jac))
    km[np.ix_(e, e)] += np.einsum('qax,qbx,q,q->ab', grad, grad, det, ws)
    mm[np.ix_(e, e)] += np.einsum('qa,qb,q,q->ab', phi, phi, det, ws)
  return km, mm


class Captured(Exception):
  pass


@contextlib.contextmanager
def captured_cg(stub):
  """Replaces the conjugate gradient solvers the module can reach."""
  real = jax.scipy.sparse.linalg.cg
  saved = [(jax.scipy.sparse.linalg, 'cg', real), (swirl_cg, 'cg', swirl_cg.cg)]
  for k, v in list(vars(poisson).items()):
    if v is real or v is swirl_cg.cg:
      saved.append((poisson, k, v))
  for o, k, _ in saved:
    setattr(o, k, stub)
  try:
    yield
  finally:
    for o, k, v in saved:
      setattr(o, k, v)


GROUPS = {
    # name: (sides of the group, condition)
    'all dirichlet': {'b': ('all', 'D')},
    'two groups': {'lo': ((0, 0), 'D'), 'hi': ((0, 1), 'D')},
    'one side': {'lo': ((0, 0), 'D')},
    'neumann': {'lo': ((0, 0), 'N')},
    'mixed': {'lo': ((0, 0), 'N'), 'hi': ((0, 1), 'D')},
    'overlapping': {'b': ('all', 'N'), 'hi': ((0, 1), 'D')},
    'nested': {'b': ('all', 'D'), 'hi': ((0, 1), 'D'), 'lo': ((0, 0), 'N')},
    'corner': {'lo': ((0, 0), 'D'), 'side': ((1, 0), 'D')},
    'three of four': {'lo': ((0, 0), 'D'), 'side': ((1, 1), 'D'),
                      'hi': ((0, 1), 'D')},
    'none': {},
}


def masks_of(n, sides, groups):
  masks = {}
  for k, (where, _) in GROUPS[groups].items():
    m = np.zeros(n, dtype=bool)
    for s, fs in sides.items():
      if where == 'all' or s == where:
        m[np.asarray(fs).reshape(-1)] = True
    masks[k] = m
  # a group without any condition must not matter
  masks['unused'] = np.arange(n) % 2 == 0
  return masks


def conditions(groups):
  return {k: (BCType.DIRICHLET if t == 'D' else BCType.NEUMANN, 0.0)
          for k, (_, t) in GROUPS[groups].items()}


def free_nodes(n, masks, groups):
  free = np.ones(n)
  for k, (_, t) in GROUPS[groups].items():
    if t == 'D':
      free[masks[k]] = 0
  return free


def system(h, *, shape, order, kind, curved, groups):
  h.func('poisson.solve_poisson')
  h.bound('lines, strips, squares and cubes of 1-4 elements, orders 1-3 (3-D: '
          '1), Newton-Cotes and GLL nodes, sheared and stretched elements '
          '(right-hand side also on multilinear elements); ten combinations '
          'of boundary groups; all fields and forcings in [-1, 1], symbolic '
          'tolerances')
  h.assume('the conjugate gradient solver is replaced by a stub that records '
           'the system it is given (C15 covers a solver); the stub answers '
           'with an arbitrary field')
  coords, els, sides = layout(shape, order, kind, curved)
  n = len(coords)
  km, mm = matrices(coords, els, order, kind)
  masks = masks_of(n, sides, groups)
  free = free_nodes(n, masks, groups)
  bcs = conditions(groups)

  def mesh():
    return Mesh.create(
        node_coords=coords, elements=els, physical_masks=dict(masks),
        gridpoints_1d=Nodes1D.create(num_points=order + 1,
                                     node_type=NODE[kind]))

  def f(u, w, forcing, answer, rtol, atol):
    seen = {}

    def stub(A, b, x0=None, *args, tol=1e-5, atol=0.0, **kw):
      if seen:
        raise Captured('two systems are solved')
      seen.update(A=A, b=b, tol=tol, atol=atol, x0=x0)
      return answer, None
    with captured_cg(stub):
      x = poisson.solve_poisson(mesh(), forcing, bcs, rtol=rtol, atol=atol)
    if not seen:
      raise Captured('no system is solved by a known solver')
    au = seen['A'](u)
    # fields that vanish at the Dirichlet nodes
    u0, w0 = u * free, w * free
    return (au, seen['b'], x, jnp.asarray(seen['tol']),
            jnp.asarray(seen['atol']),
            jnp.sum(seen['A'](u0) * w0) - jnp.sum(seen['A'](w0) * u0),
            jnp.sum(seen['A'](u0) * u0))

  keep = np.flatnonzero(free)
  sub = km[np.ix_(keep, keep)]
  low = None
  if len(keep):
    ev = np.linalg.eigvalsh(sub)
    if len(keep) < n:
      # strictly positive: a certificate by squares with positive factors
      assert ev[0] > 1e-9
      low = np.linalg.cholesky(sub)

  def mul(m, u):
    return np.array([sum((m[i, j] * u[j] for j in range(n) if m[i, j] != 0),
                         0.0 * u[0]) for i in range(n)])

  def oracle(u, w, forcing, answer, rtol, atol):
    rhs = free * mul(mm, forcing)
    lhs = free * mul(km, u)
    if curved:
      lhs = jsym.call(lambda *a: f(*a)[0], u, w, forcing, answer, rtol,
                      atol) if jsym.is_sym(u) else np.asarray(f(
                          u, w, forcing, answer, rtol, atol)[0])
      quad = None
    if len(keep) == 0:
      quad = 0.0
    elif low is not None:
      v = [sum(low[j, i] * u[keep[j]] for j in range(len(keep)))
           for i in range(len(keep))]
      quad = sum(x * x for x in v)
    else:
      k = mul(km, u)
      quad = sum(k[i] * u[i] for i in range(n))
    out = (lhs, rhs, answer, rtol, atol, np.asarray(0.0))
    return out if curved else out + (np.asarray(quad),)

  fun = (lambda *a: f(*a)[:-1]) if curved else f
  v = jsym.poly_vars
  h.equal(fun, oracle, (v('u', (n,)), v('w', (n,)), v('f', (n,)), v('x', (n,)),
                        v('rtol', ()), v('atol', ())), tol=1e-8,
          label=f'{shape} order {order} {kind}, {groups}')


def defaults(h):
  """Documented default tolerances."""
  h.func('poisson.solve_poisson')
  coords, els, sides = layout('line', 1, 'nc', False)
  n = len(coords)

  def f(u):
    seen = {}

    def stub(A, b, x0=None, *args, tol=1e-5, atol=0.0, **kw):
      seen.update(tol=tol, atol=atol)
      return u, None
    with captured_cg(stub):
      x = poisson.solve_poisson(
          Mesh.create(node_coords=coords, elements=els,
                      physical_masks=masks_of(n, sides, 'all dirichlet')), u,
          conditions('all dirichlet'))
    return x, jnp.asarray(seen['tol']), jnp.asarray(seen['atol'])
  h.equal(f, lambda u: (u, np.asarray(1e-5), np.asarray(0.0)),
          (jsym.poly_vars('u', (n,)),), tol=1e-12, label='default tolerances')


def rejections(h, *, bctype):
  """A symbolic boundary value is accepted exactly if it is zero."""
  h.func('poisson.solve_poisson')
  coords, els, sides = layout('line', 1, 'nc', False)
  n = len(coords)
  bct = BCType[bctype]

  def accepted(value):
    def stub(A, b, *args, **kw):
      return A(b), None
    try:
      with captured_cg(stub):
        poisson.solve_poisson(
            Mesh.create(node_coords=coords, elements=els,
                        physical_masks=masks_of(n, sides, 'two groups')),
            np.ones(n), {'lo': (BCType.DIRICHLET, 0), 'hi': (bct, value)})
    except NotImplementedError:
      return False
    return True

  others = {'array of zeros': np.zeros(n), 'array of ones': np.ones(n),
            'callable': lambda x: 0.0, 'none': None, 'nan': float('nan'),
            'list': [0.0], 'small': 1e-300}
  for k, val in others.items():
    def one(k=k, val=val):
      return f'{bctype} with {k} is accepted' if accepted(val) else None
    h.smoke(one)
  for val in (0, 0.0, -0.0, np.float32(0)):
    def one(val=val):
      return None if accepted(val) else f'{bctype} with {val!r} is rejected'
    h.smoke(one)
  value, cons = dse.ints('v', (), -5, 5)

  def run(path):
    got = accepted(value[()])
    STATS.obligations += 1
    m = path.proves((value[()].e == 0) == got)
    if m is not None:
      c = int(dse.value(m, value))
      if accepted(c) == (c == 0):
        raise Unreproduced(f'{h.name}: {c}')
      h.fail(f'{bctype} with value {c} is '
             f'{"accepted" if got else "rejected"}', {'value': c})
  dse.explore(run, cons, budget=300)


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(shape, order, kind, curved, groups):
    out.append((f'{shape} order {order} {kind}'
                f'{" multilinear" if curved else ""}, {groups}', system,
                dict(shape=shape, order=order, kind=kind, curved=curved,
                     groups=groups)))
  for g in GROUPS:
    add('line', 1, 'nc', False, g)
    add('line2', 2, 'gll', False, g)
    add('strip', 1, 'nc', False, g)
    add('strip', 2, 'gll', False, g)
    add('strip', 1, 'nc', True, g)
  for g in ('mixed', 'all dirichlet', 'one side', 'corner'):
    add('cube', 1, 'nc', False, g)
    add('cube', 1, 'nc', True, g)
    add('square', 1, 'nc', False, g)
    add('line2', 3, 'gll', False, g)
    add('line2', 2, 'nc', False, g)
    add('one', 2, 'nc', True, g)
    add('one', 3, 'gll', False, g)
    if th:
      add('bar', 1, 'nc', False, g)
      add('bar', 1, 'nc', True, g)
      add('cube', 2, 'gll', False, g)
      add('square', 2, 'gll', False, g)
      add('square', 2, 'gll', True, g)
      add('strip', 3, 'gll', False, g)
      add('seg', 4, 'gll', False, g)
  out.append(('default tolerances', defaults, {}))
  for b in ('DIRICHLET', 'NEUMANN'):
    out.append((f'rejections {b}', rejections, dict(bctype=b)))
  return out
