"""C04: gather and scatter are adjoint and ignore padding."""
import itertools

import numpy as np
import z3

from vlib import boot, dse, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib import ops
from vlib.harness import Rand, Unreproduced, compare
from vlib.jsym import Leaf, obj_array
from vlib.query import solve
from vlib.sym import (POISON, Poly, STATS, b_all, b_and, b_atom, b_not, int_to_u,
                      ite, same)
from swirl_fem.core import gather_scatter as gs
from swirl_fem.core.fespace import FiniteElementSpace
from swirl_fem.core.interpolation import NodeType, Quadrature1D
from swirl_fem.core.mesh import Mesh


def indices(name, shape, lo, hi):
  """Symbolic index array as guarded unions, with the underlying integers."""
  zs = obj_array(shape, lambda i: z3.Int(name + str(i)))
  us = obj_array(shape, lambda i: int_to_u(zs[i], range(lo, hi + 1)))
  dom = [z3.And(z >= lo, z <= hi) for z in zs.flat]
  return zs, us, dom


def values(m, zs):
  return np.vectorize(lambda z: m.eval(z, model_completion=True).as_long(),
                      otypes=[np.int32])(zs)


def decide(h, got, want, dom, replay, label):
  """Every component of got equals want under dom."""
  if got.shape != want.shape:
    h.fail(f'{label}: shape {got.shape} instead of {want.shape}')
  oks = []
  for i in np.ndindex(*got.shape):
    if got[i] is POISON:
      oks.append(False)
      break
    oks.append(same(got[i], want[i]))
  STATS.obligations += len(oks)
  m = solve(dom + [b_not(b_all(oks))])
  if m is not None:
    d, inputs = replay(m)
    if d is None:
      raise Unreproduced(f'{h.name}: {label} {inputs}')
    h.fail(f'{label}: {d}', inputs)


def gather_any(h, *, n, shape, mesh):
  h.func('gather_scatter.gather', 'Mesh.gather', 'Mesh.element_coords')
  h.bound('all index arrays over at most 4 nodes with at most 6 slots in one or '
          'two dimensions, including padding; all node values and fill values')
  zs, us, dom = indices('i', shape, -1, n - 1)
  u = jsym.poly_vars('u', (n,))
  fill = jsym.poly_vars('f', ())
  h.witness(dom)

  def real(iv, uv, fv):
    if mesh:
      got = make_mesh(iv, n).gather(jnp.asarray(uv))
    else:
      got = gs.gather(jnp.asarray(uv), iv, fv)
    want = np.where(iv == -1, 0.0 if mesh else fv, uv[iv])
    return compare([got], [want], 1e-6)

  def replay(m):
    iv = values(m, zs)
    uv, fv = h.nprng.uniform(1, 2, n), 7.5
    return real(iv, uv, fv), {'indices': iv, 'u': uv, 'fill': fv}

  h.smoke(lambda: real(h.nprng.integers(-1, n, size=shape),
                       h.nprng.uniform(size=n), 3.25))
  idx = Leaf(us, jnp.int32)
  if mesh:
    got = jsym.call(lambda e, u: make_mesh(e, n).gather(u), idx, u)
  else:
    got = jsym.call(lambda u, e, f: gs.gather(u, e, f), u, idx, fill)
  want = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    r = 0.0 if mesh else fill[()]
    for k in range(n):
      r = ite(b_atom(zs[i] == k), u[k], r)
    want[i] = r
  decide(h, got, want, dom, replay, 'gather')
  h.sample(nodes=n, slots=shape)


def make_mesh(elements, n):
  """A 1-D mesh of the right number of nodes per element."""
  return Mesh.create(node_coords=jnp.linspace(0.0, 1.0, n)[:, None],
                     elements=elements)


def scatter_any(h, *, n, shape, mesh):
  h.func('gather_scatter.scatter', 'Mesh.scatter')
  h.assume('padding slots hold an arbitrary value that may be non-finite')
  zs, us, dom = indices('i', shape, 0, n - 1)
  w = jsym.poly_vars('w', shape)
  h.witness(dom)

  def real(iv, wv):
    f = (lambda v: make_mesh(iv, n).scatter(v)) if mesh else (
        lambda v: gs.scatter(v, iv, n))
    got = f(jnp.asarray(wv))
    want = np.zeros(n)
    for i in np.ndindex(*iv.shape):
      if iv[i] != -1:
        want[iv[i]] += wv[i]
    return compare([got], [want], 1e-6)

  def bad(iv):
    wv = h.nprng.uniform(1, 2, shape)
    wv[iv == -1] = np.resize([np.nan, np.inf, -np.inf], shape)[iv == -1]
    return wv

  def smoke():
    iv = h.nprng.integers(-1, n, size=shape)
    return real(iv, bad(iv))
  h.smoke(smoke)

  slots = list(np.ndindex(*shape))
  pads, _ = dse.ints('pad', (len(slots),))

  def run(path):
    idx, vals = us.copy(), w.copy()
    mask = []
    for s, p in zip(slots, pads):
      mask.append(bool(p != 0))
      if mask[-1]:
        idx[s], vals[s] = -1, POISON
    arg = Leaf(idx, jnp.int32)
    if mesh:
      got = jsym.call(lambda e, v: make_mesh(e, n).scatter(v), arg, vals)
    else:
      got = jsym.call(lambda v, e: gs.scatter(v, e, n), vals, arg)
    want = np.empty(n, dtype=object)
    for k in range(n):
      r = 0.0
      for s, m in zip(slots, mask):
        if not m:
          r = ite(b_atom(zs[s] == k), ops.add(r, w[s]), r)
      want[k] = r

    def replay(mo):
      iv = values(mo, zs)
      for s, m in zip(slots, mask):
        if m:
          iv[s] = -1
      wv = bad(iv)
      return real(iv, wv), {'indices': iv, 'values': wv}
    decide(h, got, want, dom, replay, 'scatter')

  n_paths = dse.explore(run)
  h.sample(nodes=n, slots=shape, padding_patterns=n_paths)


def large(h, *, n, shape):
  """A large fixed layout with all values symbolic."""
  h.func('gather_scatter.gather', 'gather_scatter.scatter')
  h.bound('fixed random layouts of 300 slots over 130 nodes, all values')
  iv = h.nprng.integers(0, n, size=shape)
  iv[h.nprng.uniform(size=shape) < 0.1] = -1
  u, w, fill = jsym.poly_vars('u', (n,)), jsym.poly_vars('w', shape), Poly.var('f')
  want = np.empty(shape, dtype=object)
  wants = np.full(n, 0, dtype=object)
  for i in np.ndindex(*shape):
    want[i] = fill if iv[i] == -1 else u[iv[i]]
    if iv[i] != -1:
      wants[iv[i]] = wants[iv[i]] + w[i]

  def real(uv, wv, fv):
    want = np.where(iv == -1, fv, uv[iv])
    wants = np.zeros(n)
    np.add.at(wants, iv[iv >= 0], wv[iv >= 0])
    return compare([gs.gather(jnp.asarray(uv), iv, fv),
                    gs.scatter(jnp.asarray(wv), iv, n)], [want, wants], 1e-6)

  def draw():
    return real(h.nprng.uniform(1, 2, n), h.nprng.uniform(1, 2, shape), 7.5)
  h.smoke(draw)
  f = obj_array((), lambda _: fill)
  got = jsym.call(lambda u, f: gs.gather(u, iv, f), u, f)
  gots = jsym.call(lambda v: gs.scatter(v, iv, n), w)
  h.close([got, gots], [want, wants], lambda env: draw(), tol=1e-9,
          label='gathered and scattered')


def integral_padding(h, *, ndim, which):
  """Padding elements, wherever they are, leave integrals unchanged."""
  h.func('FiniteElementSpace.create', 'FiniteElementSpace.integrate')
  h.bound('two real elements and up to two padding elements in any position, '
          'dimensions 1-2, all nodal values')
  n1 = 3 if ndim == 1 else 2
  if ndim == 1:
    coords = np.array([[1.0], [2.0], [2.5]])
    els = np.array([[0, 1], [1, 2]])
  else:
    coords = np.array([[1., 0], [1.1, 1], [2, 0.2], [2.3, 1.2], [3, 0], [3, 1]])
    els = np.array([[0, 1, 2, 3], [2, 3, 4, 5]])
  quad = Quadrature1D.create(num_points=n1,
                             quadrature_type=NodeType.GAUSS_LEGENDRE)
  u = jsym.poly_vars('u', els.shape)

  def f(elements, ul):
    mesh = Mesh.create(node_coords=coords, elements=elements)
    V = FiniteElementSpace.create(mesh=mesh, quadrature=quad)
    q = V.scalar_function(ul)
    if which == 'nodal':
      return V.integrate(q)
    # singular at the coordinates that padding is given
    return V.integrate(lambda x: q(x) / x[0])

  def layout(order, arr, fill):
    return np.array([arr[k] if k >= 0 else np.full(arr.shape[1], fill)
                     for k in order], dtype=arr.dtype)

  base = jsym.call(lambda ul: f(els, ul), u)

  def real(order, uv, fill):
    a = f(els, jnp.asarray(uv))
    b = f(layout(order, els, -1), jnp.asarray(layout(order, uv, fill)))
    return compare([b], [a], 1e-6)

  orders = [o for k in (1, 2)
            for o in set(itertools.permutations([0, 1] + [-1] * k))]
  for o in sorted(orders):
    h.smoke(lambda o=o: real(o, h.nprng.uniform(size=els.shape),
                             h.nprng.choice([0.0, np.inf, np.nan])))
  pick, cons = dse.ints('order', (1,), 0, len(orders) - 1)

  def run(path):
    o = sorted(orders)[int(pick[0])]
    ul = layout(o, u, POISON)
    got = jsym.call(lambda ul: f(layout(o, els, -1), ul), ul)

    def rerun(env):
      uv = np.array([env.get(f'u[{i},{j}]', 0.5) for i, j in
                     np.ndindex(*els.shape)]).reshape(els.shape)
      return real(o, uv, np.nan)
    h.close([got], [base], rerun, tol=1e-9, label=f'padding layout {o}')
  dse.explore(run, cons)


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for n in range(1, 5):
    for shape in [(1,), (3,), (4,), (2, 2), (2, 3)]:
      out.append((f'gather n={n} {shape}', gather_any,
                  dict(n=n, shape=shape, mesh=False)))
    out.append((f'mesh gather n={n}', gather_any,
                dict(n=n, shape=(2, 3), mesh=True)))
    for shape in [(1,), (3,), (4,), (2, 2)] + ([(5,), (2, 3)] if th else []):
      if n > 3 and np.prod(shape) > 3 and not th:
        continue
      out.append((f'scatter n={n} {shape}', scatter_any,
                  dict(n=n, shape=shape, mesh=False)))
    out.append((f'mesh scatter n={n}', scatter_any,
                dict(n=n, shape=(2, 2), mesh=True)))
  out.append(('large', large, dict(n=130, shape=(60, 5))))
  for ndim in (1, 2):
    for which in ('nodal', 'singular'):
      out.append((f'integral {ndim}-D {which}', integral_padding,
                  dict(ndim=ndim, which=which)))
  return out
