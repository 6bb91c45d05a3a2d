"""C34: spectra of a velocity field are those of its values on the lattice."""
import types

import numpy as np
import z3

from vlib import boot, cx, dse, jsym, sym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from checks.c25 import patched
from checks.c30 import agree
from checks.c31 import Shim
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
from swirl_fem.niles import train
from vlib.fem import lagrange
from vlib.harness import Unreproduced, compare
from vlib.jsym import Leaf
from vlib.query import solve, z3_number


# Energy of the modes --------------------------------------------------------


class Setup:
  """The meshes that training makes."""

  def __init__(self, grid, order):
    self.n = grid * order + 1
    mesh = lambda **kw: unit_cube_mesh(grid, periodic_dims=(0, 1), **kw)
    self.sem = StokesSEM.create(mesh(), boundary_conditions={}, order=order)
    self.even = refine_premesh(mesh(), gridpoints_1d=Nodes1D.create(
        num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize()
    self.lattice = unit_cube_mesh(grid * order).finalize()
    self.perm = train.transfer_perm(self.even, self.lattice)
    self.cfg = types.SimpleNamespace(num_nodes=self.n**2)


def values_at(mesh, points):
  """Matrix of the interpolated values at points in axis-aligned elements."""
  x = np.asarray(mesh.element_coords())
  els = np.asarray(mesh.elements)
  out = np.zeros((len(points), mesh.num_nodes))
  for k, p in enumerate(points):
    inside = ((x.min(1) <= p + 1e-9) & (x.max(1) >= p - 1e-9)).all(1)
    e = np.flatnonzero(inside)[0]
    axes, pos = [], []
    for d in range(2):
      ids = np.round((x[e, :, d] - x[e, :, d].min()) * 1e7).astype(int)
      u, first, inv = np.unique(ids, return_index=True, return_inverse=True)
      axes.append(lagrange(x[e, first, d], p[d:d + 1])[0][0])
      pos.append(inv)
    for b, node in enumerate(els[e]):
      out[k, node] = axes[0][pos[0][b]] * axes[1][pos[1][b]]
  return out


def modes(n):
  """Signed frequencies, lowest first."""
  return np.arange(-(n // 2), n - n // 2)


def energy(h, *, grid, order, symbols=None):
  h.func('train.get_tke', 'train.transfer_perm')
  h.bound('velocity fields of order 2-4 on 1-3 elements per direction; all '
          'nodal values in [-1, 1] (on the larger meshes of a few nodes at a '
          'time)')
  s = Setup(grid, order)
  n, m = s.n, s.sem.velocity.mesh.num_nodes
  pts = np.asarray(s.lattice.node_coords)
  idx = np.round(pts * (n - 1)).astype(int)
  # the first direction of the result is that in which nodes vary slowest
  slow = 0 if idx.reshape(n, n, 2)[1, 0, 0] == 1 else 1
  mat = values_at(s.sem.velocity.mesh, pts)
  k = modes(n)
  phase = (k[:, None, None] * idx[:, slow] + k[None, :, None] * idx[:, 1 - slow])
  four = np.exp(-2j * np.pi * phase / n) @ mat             # (n, n, nodes)
  base = h.nprng.uniform(-1, 1, size=(m, 2))
  keep = list(range(m)) if symbols is None else symbols

  def f(u):
    full = jnp.asarray(base).at[np.asarray(keep)].set(u)
    return train.get_tke(full, s.sem, s.even, s.perm, s.cfg)

  def oracle(u):
    full = base.astype(u.dtype)
    full[keep] = u
    out = np.zeros((n, n), dtype=u.dtype)
    for a, b in np.ndindex(n, n):
      for c in range(2):
        for w in (four[a, b].real, four[a, b].imag):
          if u.dtype == object:
            v = jsym.sum_scalars([float(x) * e for x, e in zip(w, full[:, c])])
          else:
            v = w @ full[:, c]
          out[a, b] = out[a, b] + v * v * 0.5
    return out
  h.equal(f, oracle, (jsym.poly_vars('u', (len(keep), 2)),), tol=1e-7,
          run_tol=1e-6, call=cx.call, label='energy of the modes')


# Shells -----------------------------------------------------------------------


def spectrum(h, *, n):
  h.func('train.get_energy_spectrum')
  h.bound('spectra of lattices of 3-13 and 49 points per direction; all mode '
          'energies in [-1, 1]')
  cfg = types.SimpleNamespace(num_nodes=n * n)
  k = modes(n)
  size = np.hypot(*np.meshgrid(k, k, indexing='ij'))
  top = size.max()
  # twenty edges from nothing to the largest wavenumber
  edges = np.array([top * i / 19 for i in range(20)])
  shells = [np.argwhere((size >= lo - 1e-9) & (size < hi - 1e-9))
            for lo, hi in zip(edges[:18], edges[1:19])]

  def f(t):
    at, s = train.get_energy_spectrum(t, cfg)
    return jnp.asarray(at), s

  def oracle(t):
    out = [sum((t[tuple(i)] for i in x), 0.0 * t[0, 0]) for x in shells]
    return edges[1:19], np.array(out, dtype=t.dtype)
  t = jsym.poly_vars('e', (n, n))
  h.equal(f, oracle, (t,), tol=1e-8, label='shells')


# Transfer between meshes ------------------------------------------------------


class Tree:
  """Contract of the k-d tree: the stored point nearest to each query."""

  def __init__(self, data, *a, **kw):
    self.data = np.asarray(data)

  def query(self, x, k=1, **kw):
    if k != 1 or kw:
      raise sym.Unsupported('query options')
    x = np.asarray(x)
    if x.ndim == 2:
      r = [self.query(p) for p in x]
      return np.array([d for d, _ in r], dtype=object), np.array(
          [i for _, i in r])
    d = [sum((a - b) * (a - b) for a, b in zip(p, x)) for p in self.data]
    best = 0
    for i in range(1, len(d)):
      if d[i] < d[best]:
        best = i
    return d[best], best


def transfer(h, *, ns, nt, dim):
  h.func('train.transfer_perm')
  h.bound('transfers between 1-4 and 1-3 nodes in 1-2 dimensions with any '
          'coordinates in [-2, 2]')
  h.assume('scipy\'s k-d tree returns a nearest point')
  names = [f'{w}{i}.{d}' for w, c in (('s', ns), ('t', nt)) for i in range(c)
           for d in range(dim)]
  zs = [sym.poly_z3(sym.Poly.var(x)) for x in names]
  xs = np.empty(len(names), dtype=object)
  xs[:] = [dse.SymReal(sym.Poly.var(x)) for x in names]
  src, tgt = xs[:ns * dim].reshape(ns, dim), xs[ns * dim:].reshape(nt, dim)
  zsrc = np.array(zs[:ns * dim], dtype=object).reshape(ns, dim)
  ztgt = np.array(zs[ns * dim:], dtype=object).reshape(nt, dim)
  mesh = lambda c: types.SimpleNamespace(node_coords=c, num_nodes=len(c),
                                         ndim=c.shape[1])

  def real(a, b):
    got = np.asarray(train.transfer_perm(mesh(a), mesh(b)))
    if got.shape != (len(b),):
      return f'shape {got.shape}'
    d = np.linalg.norm(a[None] - b[:, None], axis=-1)
    for j, i in enumerate(got):
      if not 0 <= i < len(a) or d[j, i] > d[j].min() + 1e-9:
        return f'node {j} receives {i} at {d[j, i]} instead of {d[j].min()}'
    return None
  for _ in range(3):
    a = h.nprng.uniform(-2, 2, size=(ns, dim))
    b = h.nprng.uniform(-2, 2, size=(nt, dim))
    h.smoke(lambda a=a, b=b: (real(a, b), dict(source=a, target=b)))
  fake = Shim(train.scipy, spatial=types.SimpleNamespace(
      KDTree=Tree, cKDTree=Tree))

  def path(p):
    with patched((train, 'scipy', fake)):
      got = np.asarray(train.transfer_perm(mesh(src), mesh(tgt)))
    bad = []
    if got.shape != (nt,):
      bad = [z3.BoolVal(True)]
    else:
      dist = lambda i, j: z3.Sum([(s - t) * (s - t) for s, t in
                                  zip(zsrc[i], ztgt[j])])
      for j, i in enumerate(got):
        if not 0 <= i < ns:
          bad.append(z3.BoolVal(True))
          continue
        bad += [dist(k, j) < dist(int(i), j) for k in range(ns)]
    for c in bad:
      sym.STATS.obligations += 1
      m = solve(p.cond + [c], timeout_ms=30000)
      if m is not None:
        v = np.array([float(z3_number(m.eval(z, True))) for z in zs])
        a, b = v[:ns * dim].reshape(ns, dim), v[ns * dim:].reshape(nt, dim)
        r = real(a, b)
        if r is None:
          raise Unreproduced(f'{h.name}: {a} {b}')
        h.fail(r, dict(source=a, target=b))
  paths = dse.explore(path, [z3.And(z >= -2, z <= 2) for z in zs], budget=200)
  h.sample(sources=ns, targets=nt, paths=paths)


# Spectral error ---------------------------------------------------------------


def spectral(h, *, steps, batch, k):
  """The evaluation compares the spectra of energies averaged over time."""
  from checks.c16 import Case
  from checks import c32
  h.func('train.compute_mse_loss')
  h.bound('evaluations of 1-4 steps of 1-2 windows')
  h.assume('solver, mesh transfer and shells replaced by simple functions; the '
           'logarithm is an uninterpreted function')
  c = Case('square', 2, (0, 1), 'none')
  n = c.n
  ne, nn = np.asarray(c.sem.velocity.mesh.elements).shape
  cfg = c32.config(k, steps, False, 0, ne, nn * 2)
  window, nodes = k + steps + 1, np.array([3, 7])
  rest = h.nprng.integers(-8, 9, size=(batch, window, n, 2)) / 8.0

  def fill(u):
    return jnp.asarray(rest).at[:, :, nodes].set(u)

  def tke(u, *a, **kw):
    e = u[3, 0] ** 2 + u[7, 1] * u[3, 1]
    return jnp.stack([e, u[7, 0] ** 2 + 1])

  def shells(t, *a, **kw):
    return np.arange(3), jnp.stack([t[0] + 2 * t[1], t[1] + 1, t[0] * 4])

  def solve_(self, us, ps, f, *a, **kw):
    return us[-1] * 0.5 + us[0] * 0.25, ps[-1], {}

  def silent(variables, x, rngs=None, z_rng=None, train=None):
    return 0 * x, {z: jnp.zeros(x.shape[0], jnp.float32) for z in
                   ('kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds')}

  def f(u):
    full = fill(u)
    bt = {'u': full, 'p': jnp.zeros((batch, window, c.np)),
          't': jnp.zeros((batch, window))}
    with patched((StokesSEM, 'stokes_one_step', solve_),
                 (StokesSEM, 'B', lambda s, x: x),
                 (StokesSEM, 'C', lambda s, x: x),
                 (train, 'make_multiscale_perm', lambda *a, **kw: c32.PERM),
                 (train, 'get_tke', tke),
                 (train, 'get_energy_spectrum', shells)):
      return train.compute_mse_loss(bt, {}, silent, jax.random.PRNGKey(1), 0.0,
                                    c.sem, None, None, cfg, False)[1]['tke_err']

  def ref(u):
    full = fill(u)
    errors = []
    for b in range(batch):
      us, pred = [full[b, i] for i in range(k)], []
      for _ in range(steps):
        us = us[1:] + [us[-1] * 0.5 + us[0] * 0.25]
        pred.append(us[-1])
      target = [full[b, k + i] for i in range(steps)]
      logs = []
      for fields in (pred, target):
        late = jnp.stack([tke(x) for x in fields[steps // 2:]])
        logs.append(jnp.log(shells(late.mean(axis=0))[1]))
      errors.append(jnp.sum((logs[0] - logs[1]) ** 2))
    return jnp.mean(jnp.stack(errors))
  agree(h, f, ref, (Leaf(jsym.poly_vars('u', (batch, window, 2, 2)),
                         jnp.float64),), 'spectral error')


def harnesses(tier):
  out = []
  def add(fn, **kw):
    out.append((f'{fn.__name__} ' + ' '.join(f'{k}={v}' for k, v in kw.items()),
                fn, kw))
  add(energy, grid=1, order=2)
  add(energy, grid=2, order=2)
  add(energy, grid=1, order=3)
  add(energy, grid=1, order=4)
  add(energy, grid=2, order=3, symbols=[0, 5, 13, 20, 31, 48])
  add(energy, grid=3, order=2, symbols=[1, 8, 19, 24, 40])
  for n in (3, 4, 5, 7, 9, 12, 13, 49):
    add(spectrum, n=n)
  for ns, nt, dim in ((1, 1, 1), (3, 2, 1), (2, 3, 1), (2, 2, 2), (2, 3, 2)):
    add(transfer, ns=ns, nt=nt, dim=dim)
  for steps, batch, k in ((1, 1, 2), (2, 2, 2), (3, 1, 3), (4, 1, 2)):
    add(spectral, steps=steps, batch=batch, k=k)
  if tier == 'thorough':
    add(energy, grid=2, order=3)
    add(energy, grid=3, order=2)
    add(energy, grid=2, order=4, symbols=list(range(0, 81, 8)))
    add(energy, grid=3, order=3, symbols=list(range(2, 100, 11)))
    for n in (17, 25, 33, 65):
      add(spectrum, n=n)
    add(transfer, ns=4, nt=2, dim=1)
    add(transfer, ns=2, nt=4, dim=2)
    add(spectral, steps=5, batch=2, k=3)
  return out
