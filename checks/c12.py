"""C12: integrals, gradients and divergences are exact on mapped elements."""
import itertools

import numpy as np

from vlib import boot, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import compare
from vlib.query import Under
from vlib.jsym import obj_array
from vlib.sym import Poly, as_real
from swirl_fem.core.fespace import FiniteElementSpace, div, grad
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
from swirl_fem.core.mesh import Mesh

NODE = {'nc': NodeType.NEWTON_COTES, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE}
QUAD = {'gl': NodeType.GAUSS_LEGENDRE, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE}

# two or three elements each, as (matrix, offset)
MAPS = {
    1: [([[0.7]], [0.4]), ([[1.6]], [-2.0])],
    2: [([[0.8, 0.3], [-0.2, 1.1]], [0.3, -0.1]),         # sheared
        ([[1.2, 0.0], [0.0, 0.25]], [1.0, 2.0]),          # stretched
        ([[0.6, -0.8], [0.8, 0.6]], [-1.0, 0.5])],        # rotated
    3: [([[0.8, 0.3, 0.1], [-0.2, 1.1, 0.2], [0.1, -0.3, 0.9]], [0.1, 0., 0.4]),
        ([[1.5, 0.0, 0.0], [0.0, 0.6, -0.8], [0.0, 0.8, 0.6]], [1., -1., 0.])],
}


def ref_nodes(kind, k, ndim):
  """Reference nodes in lexicographic order."""
  x = meshes.nodes_1d(kind, k + 1)
  return np.array(list(itertools.product(x, repeat=ndim)))


def exponents(ndim, deg):
  return [e for e in itertools.product(range(deg + 1), repeat=ndim)
          if sum(e) <= deg]


def monos(x, exps):
  """Monomials at points x (..., ndim), by plain multiplication."""
  out = []
  for e in exps:
    v = 1.0
    for d, p in enumerate(e):
      for _ in range(p):
        v = v * x[..., d]
    out.append(v + np.zeros(x.shape[:-1]) if not getattr(x, 'dtype', None)
               == object else v + 0 * x[..., 0])
  return out


def dmonos(x, exps, d):
  out = []
  for e in exps:
    if e[d] == 0:
      out.append(np.zeros(x.shape[:-1]))
      continue
    f = list(e)
    f[d] -= 1
    out.append(e[d] * monos(x, [tuple(f)])[0])
  return out


def lin(vals, c):
  s = 0.0
  for v, k in zip(vals, c):
    s = s + v * k
  return s


def gauss(ndim, n):
  x, w = np.polynomial.legendre.leggauss(n)
  pts = np.array(list(itertools.product(x, repeat=ndim)))
  ws = np.array([np.prod(v) for v in itertools.product(w, repeat=ndim)])
  return pts, ws


def disjoint_mesh(coords, kind, k):
  """A mesh of elements without shared nodes; coords (E, N, ndim)."""
  e, n = coords.shape[:2]
  return Mesh.create(
      node_coords=coords.reshape(e * n, -1),
      elements=np.arange(e * n, dtype=np.int32).reshape(e, n),
      gridpoints_1d=Nodes1D.create(num_points=k + 1, node_type=NODE[kind]))


def nodal(mesh, u):
  """Element values of node values, through the mesh."""
  if u.ndim == 1:
    return mesh.gather(u)
  return jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)(u)


def at_points(v, f):
  return jax.vmap(jax.vmap(f))(v.quad_coords)


def concrete_geometry(h, *, ndim, k, kind, quad, extra, scale=1.0):
  h.func('FiniteElementSpace.create', 'FiniteElementSpace.integrate',
         'FiniteElementSpace.scalar_function', 'FiniteElementSpace.vector_function',
         'fespace.grad', 'fespace.div', 'Mesh.element_coords')
  h.bound('orders 1-4 (3 in 3-D: 2), dimensions 1-3, Newton-Cotes and GLL '
          'nodes, Gauss-Legendre and GLL quadratures; sheared, stretched and '
          'rotated elements, also scaled by 1/512 and 2048; all polynomial '
          'coefficients in [-1, 1]')
  xi = ref_nodes(kind, k, ndim)
  ms = [(np.array(a), np.array(b)) for a, b in MAPS[ndim]]
  coords = np.stack([xi @ a.T + b for a, b in ms])
  exps = exponents(ndim, k)
  pts, ws = gauss(ndim, 2 * k + 2)
  nq = k + 1 + extra
  q1 = Quadrature1D.create(num_points=nq, quadrature_type=QUAD[quad])

  def space():
    return FiniteElementSpace.create(
        mesh=disjoint_mesh(coords * scale, kind, k), quadrature=q1)

  x1 = np.polynomial.legendre.leggauss(nq)[0] if quad == 'gl' else meshes.gll(nq)
  ref_q = np.array(list(itertools.product(x1, repeat=ndim)))
  want_q = np.stack([ref_q @ a.T + b for a, b in ms])

  def f(c, d):
    v = space()
    mesh = v.mesh
    xn = mesh.node_coords / scale
    vol = scale ** ndim
    p = v.scalar_function(nodal(mesh, lin(monos(np.asarray(xn), exps), c)))
    vec = jnp.stack([lin(monos(np.asarray(xn), exps), d[:, i])
                     for i in range(ndim)], axis=-1)
    w = v.vector_function(nodal(mesh, vec))
    return (at_points(v, p), at_points(v, grad(p)) * scale, at_points(v, w),
            at_points(v, grad(w)) * scale, at_points(v, div(w)) * scale,
            v.integrate(p) / vol,
            v.integrate(lambda x: div(w)(x)) * (scale / vol),
            v.integrate(lambda x: grad(p)(x)[0]) * (scale / vol),
            v.integrate(lambda x: w(x)[ndim - 1]) / vol,
            v.quad_coords / scale)

  def oracle(c, d):
    val = lin(monos(want_q, exps), c)
    gr = np.stack([lin(dmonos(want_q, exps, i), c) for i in range(ndim)], axis=-1)
    vv = np.stack([lin(monos(want_q, exps), d[:, i]) for i in range(ndim)],
                  axis=-1)
    # derivative index first, component last
    gv = np.stack([np.stack([lin(dmonos(want_q, exps, i), d[:, j])
                             for j in range(ndim)], axis=-1)
                   for i in range(ndim)], axis=-2)
    dv = sum(gv[..., i, i] for i in range(ndim))
    i0 = i1 = i2 = i3 = 0.0
    for a, b in ms:
      x = pts @ a.T + b
      s = np.linalg.det(a)
      mi = [float(np.sum(ws * m) * s) for m in monos(x, exps)]
      i0 = i0 + lin(mi, c)
      i3 = i3 + lin(mi, d[:, ndim - 1])
      for i in range(ndim):
        di = [float(np.sum(ws * m) * s) for m in dmonos(x, exps, i)]
        i1 = i1 + lin(di, d[:, i])
        if i == 0:
          i2 = i2 + lin(di, c)
    return (val, gr, vv, gv, dv, np.asarray(i0), np.asarray(i1), np.asarray(i2),
            np.asarray(i3), want_q)

  c = jsym.poly_vars('c', (len(exps),))
  d = jsym.poly_vars('d', (len(exps), ndim))
  h.equal(f, oracle, (c, d), tol=1e-7, label='values, gradients, integrals')


def products(h, *, ndim, k, quad):
  """Integrals of products with enough points, and of coordinate functions."""
  h.func('FiniteElementSpace.integrate')
  kind = 'gll'
  xi = ref_nodes(kind, k, ndim)
  ms = [(np.array(a), np.array(b)) for a, b in MAPS[ndim]]
  coords = np.stack([xi @ a.T + b for a, b in ms])
  exps = exponents(ndim, k)
  nq = k + 1 if quad == 'gl' else k + 2
  pts, ws = gauss(ndim, 2 * k + 2)
  q1 = Quadrature1D.create(num_points=nq, quadrature_type=QUAD[quad])

  def f(c, d):
    v = FiniteElementSpace.create(mesh=disjoint_mesh(coords, kind, k),
                                  quadrature=q1)
    xn = np.asarray(v.mesh.node_coords)
    p = v.scalar_function(nodal(v.mesh, lin(monos(xn, exps), c)))
    r = v.scalar_function(nodal(v.mesh, lin(monos(xn, exps), d)))

    def exact(x):
      s = 0.0
      for e, cc in zip(exps, d):
        t = cc
        for i in range(ndim):
          t = t * x[i] ** e[i]
        s = s + t
      return s
    return (v.integrate(lambda x: p(x) * r(x)),
            v.integrate(lambda x: jnp.vdot(grad(p)(x), grad(r)(x))),
            v.integrate(lambda x: p(x) * exact(x)),
            v.integrate(grad_first(exact)),
            v.integrate(div(lambda x: field(exact, x))),
            v.integrate(lambda x: grad(lambda y: field(exact, y))(x)[
                0, ndim - 1]))

  def field(g, x):
    """A vector-valued coordinate function."""
    return jnp.stack([(i + 1) * g(x) + x[i] for i in range(ndim)])

  def grad_first(g):
    return lambda x: grad(g)(x)[0]

  def oracle(c, d):
    out = [0.0] * 6
    for a, b in ms:
      x = pts @ a.T + b
      s = np.linalg.det(a)
      m = monos(x, exps)
      dm = [dmonos(x, exps, i) for i in range(ndim)]
      out[4] = out[4] + float(np.sum(ws) * s) * ndim
      out[5] = out[5] + float(np.sum(ws) * s) * (ndim == 1)
      for i in range(len(exps)):
        out[4] = out[4] + float(sum((q + 1) * np.sum(ws * dm[q][i])
                                    for q in range(ndim)) * s) * d[i]
        out[5] = out[5] + float(np.sum(ws * dm[0][i]) * s) * ndim * d[i]
        out[3] = out[3] + float(np.sum(ws * dm[0][i]) * s) * d[i]
        for j in range(len(exps)):
          cd = c[i] * d[j]
          out[0] = out[0] + float(np.sum(ws * m[i] * m[j]) * s) * cd
          out[1] = out[1] + float(sum(np.sum(ws * dm[q][i] * dm[q][j])
                                      for q in range(ndim)) * s) * cd
    out[2] = out[0]
    return tuple(np.asarray(o) for o in out)

  h.equal(f, oracle, (jsym.poly_vars('c', (len(exps),)),
                      jsym.poly_vars('d', (len(exps),))), tol=1e-6,
          label='integrals of products')


def symbolic_affine(h, *, ndim, k):
  """One element under any affine map of a box."""
  h.bound('one element with any affine map: diagonal entries in [1, 2], others '
          'in [-0.3, 0.3], offsets in [-1, 1]; orders 1-2')
  xi = ref_nodes('gll', k, ndim)
  exps = exponents(ndim, k)
  q1 = Quadrature1D.create(num_points=k + 1, quadrature_type=QUAD['gl'])
  x1 = np.polynomial.legendre.leggauss(k + 1)[0]
  ref_q = np.array(list(itertools.product(x1, repeat=ndim)))
  box = {f'a[{i},{j}]': ((1, 2) if i == j else (-0.3, 0.3))
         for i in range(ndim) for j in range(ndim)}
  box['__den__'] = 0.1

  def place(a, b, ref):
    return jnp.stack([sum(float(r[j]) * a[:, j] for j in range(ndim)) + b
                      for r in ref])

  # coefficients are fixed, with one generic value per monomial
  cf = h.nprng.uniform(-1, 1, size=len(exps))

  def f(a, b):
    coords = place(a, b, xi)[None]
    v = FiniteElementSpace.create(mesh=disjoint_mesh(coords, 'gll', k),
                                  quadrature=q1)
    u = sum(float(c) * jnp.prod(jnp.stack(
        [coords[0][:, d] ** e[d] for d in range(ndim)]), axis=0)
            for c, e in zip(cf, exps))
    p = v.scalar_function(nodal(v.mesh, u))
    return (v.integrate(lambda x: 1.0 + 0 * x[0]), v.integrate(lambda x: x[0]),
            v.quad_coords, at_points(v, p), at_points(v, grad(p)))

  def oracle(a, b):
    from vlib.jsym import det
    dt = det([[a[i, j] for j in range(ndim)] for i in range(ndim)])
    xq = np.array([[sum(float(r[j]) * a[i, j] for j in range(ndim)) + b[i]
                    for i in range(ndim)] for r in ref_q])
    return (np.asarray(dt * 2.0 ** ndim), np.asarray(dt * 2.0 ** ndim * b[0]),
            xq[None], lin(monos(xq, exps), cf)[None],
            np.stack([lin(dmonos(xq, exps, d), cf) for d in range(ndim)],
                     axis=-1)[None])

  a = jsym.poly_vars('a', (ndim, ndim))
  b = jsym.poly_vars('b', (ndim,))
  h.equal(f, oracle, (a, b), tol=1e-6, box=box,
          label='symbolic affine map',
          hooks=in_box(np.append(a, b), box) if ndim == 1 else None)


def symbolic_vertices(h, *, ndim, free):
  """Straight-sided elements: volume, and gradients of affine functions."""
  h.bound('one straight-sided element whose vertices move by up to 0.2 around '
          'the unit square or cube (all 8 coordinates in 2-D, all 24 for the '
          'volume in 3-D)')
  base = np.array(list(itertools.product([0.0, 1.0], repeat=ndim)))
  q1 = Quadrature1D.create(num_points=2, quadrature_type=QUAD['gl'])
  cf = [0.7, -0.4, 0.9][:ndim]

  def full(s):
    rows = []
    for n in range(len(base)):
      rows.append([base[n, d] + (s[free.index((n, d))] if (n, d) in free else
                                 0.0) for d in range(ndim)])
    return rows

  only_volume = len(free) > 12

  def f(s):
    coords = jnp.stack([jnp.stack([jnp.asarray(x) for x in r])
                        for r in full(s)])[None]
    v = FiniteElementSpace.create(mesh=disjoint_mesh(coords, 'nc', 1),
                                  quadrature=q1)
    vol = v.integrate(lambda x: 1.0 + 0 * x[0])
    if only_volume:
      return (vol,)
    u = sum(c * coords[0][:, d] for d, c in enumerate(cf)) + 0.25
    p = v.scalar_function(nodal(v.mesh, u))
    return vol, at_points(v, grad(p))

  def oracle(s):
    xs = full(s)
    if ndim == 2:
      # shoelace formula around the boundary
      o = [0, 2, 3, 1]
      vol = 0.0
      for i in range(4):
        (x0, y0), (x1, y1) = xs[o[i]], xs[o[(i + 1) % 4]]
        vol = vol + 0.5 * (x0 * y1 - x1 * y0)
    elif ndim == 1:
      vol = xs[1][0] - xs[0][0]
    else:
      # exact integral of the jacobian of the trilinear map
      pts, ws = gauss(3, 3)
      vol = 0.0
      for p, w in zip(pts, ws):
        m = []
        for i in range(3):
          row = []
          for d in range(3):
            t = 0.0
            for n in range(8):
              g = 1.0
              for a in range(3):
                sgn = 1.0 if base[n, a] else -1.0
                g *= sgn / 2 if a == i else (1 + sgn * p[a]) / 2
              t = t + g * xs[n][d]
            row.append(t)
          m.append(row)
        from vlib.jsym import det
        vol = vol + float(w) * det(m)
    if only_volume:
      return (np.asarray(vol),)
    return np.asarray(vol), np.tile(np.array(cf), (1, 2 ** ndim, 1))

  box = {'s': (-0.2, 0.2), '__den__': 0.01}
  s = jsym.poly_vars('s', (len(free),))
  for x in s.flat:
    box[Poly.names[x.vars()[0]]] = (-0.2, 0.2)
  h.equal(f, oracle, (s,), tol=1e-6, box=box, default_box=0.2,
          hooks=in_box(s, box) if ndim == 1 else None, label='volume and affine gradients')


def in_box(sym_arr, box):
  """Hook that settles comparisons by the bounds of the inputs."""
  cons = []
  for x in sym_arr.flat:
    lo, hi = box.get(Poly.names[x.vars()[0]], (-1, 1))
    cons += [as_real(x) >= lo, as_real(x) <= hi]
  return {'settle': Under(cons)}


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for ndim in (1, 2, 3):
    top = {1: 4, 2: 3, 3: 2}[ndim] + (2 if th and ndim < 3 else 0)
    for k in range(1, top + 1):
      for kind, quad, extra in [('nc', 'gl', 0), ('gll', 'gll', 1),
                                ('gll', 'gl', 1)]:
        if ndim == 3 and k == 2 and not th and kind + quad != 'gllgll':
          continue
        out.append((f'{ndim}-D order {k} {kind} {quad}', concrete_geometry,
                    dict(ndim=ndim, k=k, kind=kind, quad=quad, extra=extra)))
      if k < 3:
        for name, scale in (('small', 2.0 ** -9), ('big', 2.0 ** 11)):
          if ndim < 3 or k < 2:
            out.append((f'{ndim}-D order {k} {name} elements',
                        concrete_geometry,
                        dict(ndim=ndim, k=k, kind='gll', quad='gl', extra=1,
                             scale=scale)))
      for quad in ('gl', 'gll'):
        if ndim < 3 or k < 2:
          out.append((f'products {ndim}-D order {k} {quad}', products,
                      dict(ndim=ndim, k=k, quad=quad)))
    for k in (1, 2) if ndim < 3 or th else (1,):
      out.append((f'affine map {ndim}-D order {k}', symbolic_affine,
                  dict(ndim=ndim, k=k)))
    allv = [(n, d) for n in range(2 ** ndim) for d in range(ndim)]
    out.append((f'vertices {ndim}-D', symbolic_vertices,
                dict(ndim=ndim, free=allv)))
  out.append(('vertices 3-D gradients', symbolic_vertices,
              dict(ndim=3, free=[(7, 0), (7, 1), (7, 2), (3, 0), (1, 2)])))
  return out
