"""C13: covectors represent their linear form exactly."""
import numpy as np

from vlib import boot, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import compare
from swirl_fem.core.fespace import FiniteElementSpace, div, grad
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
from swirl_fem.core.mesh import Mesh

QUAD = {'gl': NodeType.GAUSS_LEGENDRE, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE,
        'nc': NodeType.NEWTON_COTES}

# name: (kinds of the arguments, form); s: scalar, v: vector nodal function
FORMS = {
    'mass': ('ss', lambda u, v: lambda x: u(x) * v(x)),
    'stiffness': ('ss', lambda u, v: lambda x: jnp.vdot(grad(u)(x),
                                                       grad(v)(x))),
    'vector mass': ('vv', lambda u, v: lambda x: jnp.vdot(u(x), v(x))),
    'vector stiffness': ('vv', lambda u, v: lambda x: jnp.einsum(
        'ij,ij->', grad(u)(x), grad(v)(x))),
    'transposed gradients': ('vv', lambda u, v: lambda x: jnp.einsum(
        'ij,ji->', grad(u)(x), grad(v)(x))),
    'divergence': ('vs', lambda v, q: lambda x: div(v)(x) * q(x)),
    'gradient times vector': ('sv', lambda p, v: lambda x: jnp.vdot(
        grad(p)(x), v(x))),
    'weighted': ('ss', lambda u, v: lambda x: (
        jnp.exp(x[0]) + x[-1] ** 2) * u(x) * grad(v)(x)[0]),
    'linear': ('s', lambda v: lambda x: v(x) * (1 + x[0])),
    'linear divergence': ('v', lambda v: lambda x: div(v)(x)),
    'convection': ('vvv', lambda u, w, v: lambda x: jnp.einsum(
        'i,ij,j->', u(x), grad(w)(x), v(x))),
    'triple': ('sss', lambda a, b, c: lambda x: a(x) * b(x) * grad(c)(x)[-1]),
}


def geometry(ndim, order, flat=False):
  shape = {1: (2,), 2: (2, 1), 3: (1, 1, 1)}[ndim]
  coords, els, _, _ = meshes.grid(shape, order, kind='gll',
                                  warp=None if flat else meshes.warp_smooth)
  return coords, els


def space(ndim, order, quad, flat=False):
  coords, els = geometry(ndim, order, flat)
  n, k = quad
  mesh = Mesh.create(
      node_coords=coords, elements=els,
      gridpoints_1d=Nodes1D.create(num_points=order + 1,
                                   node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
  return FiniteElementSpace.create(mesh, Quadrature1D.create(
      num_points=n, quadrature_type=QUAD[k]))


def shape_of(kind, ndim, order):
  e = len(geometry(ndim, order)[1])
  s = (e, (order + 1) ** ndim)
  return s if kind == 's' else s + (ndim,)


def make(v, kind, u):
  return v.scalar_function(u) if kind == 's' else v.vector_function(u)


def pairing(h, *, name, ndim, order, quad, pos):
  h.func('FiniteElementSpace.local_covector', 'FiniteElementSpace.integrate',
         'fespace.grad', 'fespace.div', 'NodalQFunction.__call__')
  h.bound('twelve forms with one to three arguments and the placeholder in '
          'every position, orders 1-3, dimensions 1-3, curved elements, '
          'several quadratures; all nodal values in [-1, 1]')
  kinds, form = FORMS[name]

  def f(*us):
    v = space(ndim, order, quad)
    funs = tuple(make(v, k, None if i == pos else u)
                 for i, (k, u) in enumerate(zip(kinds, us)))
    c = v.local_covector(form, funs)
    return jnp.sum(c * us[pos]), jnp.zeros(c.shape)

  def substituted(*us):
    v = space(ndim, order, quad)
    return v.integrate(form(*[make(v, k, u) for k, u in zip(kinds, us)]))

  us = tuple(jsym.poly_vars('abc'[i], shape_of(k, ndim, order))
             for i, k in enumerate(kinds))
  shape = us[pos].shape

  def oracle(*vals):
    if any(jsym.is_sym(v) for v in vals):
      r = jsym.call(substituted, *vals)
    else:
      r = np.asarray(substituted(*vals))
    return r, np.zeros(shape)
  h.equal(f, oracle, us, tol=1e-7,
          label=f'{name}, placeholder {pos}')


def other_arguments(h, *, ndim, order, quad, which):
  """Coordinate functions and derivatives as arguments of the form."""
  h.func('FiniteElementSpace.local_covector')
  h.bound('also coordinate functions among the arguments, a gradient as the '
          'placeholder, and repeated use of the placeholder')
  coord = lambda x: 1 + x[0] * x[-1]
  sh = {'coordinate': 's', 'coordinate last': 's', 'gradient': 's',
        'vector gradient': 'v', 'twice': 's', 'closure': 's'}[which]
  shape = shape_of(sh, ndim, order)

  def funs(v, u, w):
    """(form, arguments) with u as the argument that may be missing."""
    p = make(v, sh, u)
    q = make(v, sh, w)
    return {
        'coordinate': (lambda f, u: lambda x: f(x) * u(x), (coord, p)),
        'coordinate last': (lambda u, q, f: lambda x: f(x) * u(x) * q(x),
                            (p, q, coord)),
        'gradient': (lambda q, g: lambda x: q(x) * g(x)[-1], (q, grad(p))),
        'vector gradient': (lambda g, q: lambda x: jnp.vdot(
            g(x)[0], q(x)) + g(x)[-1, 0], (grad(p), q)),
        'twice': (lambda u, q: lambda x: u(x) * coord(x) + jnp.vdot(
            grad(u)(x), grad(q)(x)), (p, q)),
        'closure': (lambda u: lambda x: u(x) * q(x) + grad(q)(x)[0] * u(x),
                    (p,)),
    }[which]

  def f(u, w):
    v = space(ndim, order, quad)
    form, args = funs(v, None, w)
    return jnp.sum(v.local_covector(form, args) * u)

  def whole(u, w):
    v = space(ndim, order, quad)
    form, args = funs(v, u, w)
    return v.integrate(form(*args))

  def oracle(u, w):
    if jsym.is_sym(u) or jsym.is_sym(w):
      return jsym.call(whole, u, w)
    return np.asarray(whole(u, w))
  h.equal(f, oracle, (jsym.poly_vars('u', shape), jsym.poly_vars('w', shape)),
          tol=1e-7, label=which)


def operator(h, *, name, ndim, order, quad, assembled):
  """Symmetric, positive semi-definite, constants in the stiffness kernel."""
  h.func('FiniteElementSpace.local_covector', 'Mesh.gather', 'Mesh.scatter')
  kinds, form = FORMS[name]
  k = kinds[0]
  v0 = space(ndim, order, quad)
  nn = len(v0.mesh.node_coords)
  gshape = ((nn,) if k == 's' else (nn, ndim)) if assembled else shape_of(
      k, ndim, order)

  def apply(u):
    v = space(ndim, order, quad)
    if assembled:
      g = v.mesh.gather if k == 's' else jax.vmap(v.mesh.gather, -1, -1)
      s = v.mesh.scatter if k == 's' else jax.vmap(v.mesh.scatter, -1, -1)
      return s(v.local_covector(form, (make(v, k, g(u)), make(v, k, None))))
    return v.local_covector(form, (make(v, k, u), make(v, k, None)))

  def f(u, w, c):
    sym = jnp.sum(apply(u) * w)
    quadratic = jnp.sum(apply(u) * u)
    const = apply(c * jnp.ones(gshape))
    return sym, quadratic, const

  w1 = np.asarray(v0.quadrature.weights_nd(ndim))
  jd = np.asarray(v0.jacdets)
  if not ((w1 > 0).all() and (jd > 0).all()):
    h.fail('weights or jacobians are not positive', {})

  def squares(u):
    """A sum of squares with the positive quadrature weights."""
    v = space(ndim, order, quad)
    if assembled:
      g = v.mesh.gather if k == 's' else jax.vmap(v.mesh.gather, -1, -1)
      u = g(u)
    q = make(v, k, u)
    q = grad(q) if 'stiff' in name else q
    val = jax.vmap(jax.vmap(q))(v.quad_coords)
    val = val.reshape(val.shape[:2] + (-1,))
    return jnp.einsum('eqk,eqk,eq,q->', val, val, jd, w1)

  def oracle(u, w, c):
    run = (jsym.call if jsym.is_sym(u) else lambda g, *a: np.asarray(g(*a)))
    swapped = run(lambda u, w: jnp.sum(apply(w) * u), u, w)
    sos = run(squares, u)
    if 'stiff' in name:
      const = np.zeros(gshape)
    else:
      # the mass of a constant, by integrating each basis function
      const = run(lambda c: c * apply(jnp.ones(gshape)), c)
    return swapped, sos, const
  h.equal(f, oracle, (jsym.poly_vars('u', gshape), jsym.poly_vars('w', gshape),
                      jsym.poly_vars('c', ())), tol=1e-7,
          label=f'{name}: symmetry, squares, constants')


def rejections(h, *, ndim):
  h.func('FiniteElementSpace.local_covector')
  n = space(ndim, 1, (2, 'gl')).num_elements
  sh = shape_of('s', ndim, 1)

  def attempt(u, w):
    v = space(ndim, 1, (2, 'gl'))
    form = FORMS['mass'][1]
    bad = 0
    for funs in [(make(v, 's', u), make(v, 's', w)),
                 (make(v, 's', None), make(v, 's', None))]:
      try:
        v.local_covector(form, funs)
      except ValueError:
        bad += 1
    # shapes are checked, too
    for s in [(sh[0] + 1, sh[1]), (sh[0], sh[1] + 1)]:
      try:
        v.scalar_function(jnp.zeros(s))
      except ValueError:
        bad += 1
      try:
        v.vector_function(jnp.zeros(s + (ndim,)))
      except ValueError:
        bad += 1
    return jnp.asarray(float(bad))

  h.equal(attempt, lambda u, w: np.asarray(6.0),
          (jsym.poly_vars('u', sh), jsym.poly_vars('w', sh)),
          label='rejections')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for name, (kinds, _) in FORMS.items():
    cfgs = [(1, 2, (3, 'gl')), (2, 1, (2, 'gll')), (2, 2, (3, 'gl')),
            (3, 1, (2, 'gl'))]
    if len(kinds) == 3:
      cfgs = [(1, 2, (4, 'gl')), (2, 1, (3, 'gll'))]
    if th:
      cfgs += [(1, 3, (4, 'gll')), (1, 1, (5, 'gl'))]
      if len(kinds) < 3:
        cfgs += [(2, 2, (4, 'gll')), (2, 3, (4, 'gl')), (3, 1, (3, 'gll'))]
      else:
        cfgs += [(2, 1, (4, 'gl')), (3, 1, (2, 'gl'))]
    for ndim, order, quad in cfgs:
      for pos in range(len(kinds)):
        if not th and ndim == 3 and kinds in ('vv',) and pos:
          continue
        out.append((f'{name} {ndim}-D order {order} {quad} pos {pos}', pairing,
                    dict(name=name, ndim=ndim, order=order, quad=quad,
                         pos=pos)))
  for name in ('mass', 'stiffness', 'vector mass', 'vector stiffness'):
    for ndim, order, quad in [(1, 2, (3, 'gll')), (2, 1, (2, 'gl')),
                              (2, 2, (3, 'gll')), (3, 1, (2, 'gl'))]:
      if 'vector' in name and (ndim == 3 or order * ndim == 4) and not th:
        continue
      for assembled in (False, True):
        out.append((f'operator {name} {ndim}-D order {order} '
                    f'{"assembled" if assembled else "local"}', operator,
                    dict(name=name, ndim=ndim, order=order, quad=quad,
                         assembled=assembled)))
  for which in ('coordinate', 'coordinate last', 'gradient', 'vector gradient',
                'twice', 'closure'):
    for ndim, order, quad in [(1, 2, (3, 'gl')), (2, 1, (2, 'gll')),
                              (3, 1, (2, 'gl'))]:
      out.append((f'{which} {ndim}-D', other_arguments,
                  dict(ndim=ndim, order=order, quad=quad, which=which)))
  for ndim in (1, 2, 3):
    out.append((f'rejections {ndim}-D', rejections, dict(ndim=ndim)))
  return out
