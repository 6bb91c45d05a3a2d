"""C16: Stokes operators are mutually consistent and respect the boundary."""
import numpy as np

from vlib import boot, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax.numpy as jnp
from vlib.fem import basis, Space, basis, lagrange, sparse_form
from swirl_fem.core.premesh import Premesh
from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM

SHAPES = {'one': (1, 1), 'strip': (2, 1), 'column': (1, 2), 'square': (2, 2),
          'cube': (1, 1, 1), 'block': (2, 2, 2)}
MATRIX = {2: np.array([[0.8, 0.3], [-0.2, 1.1]]),
          3: np.array([[0.8, 0.3, 0.1], [-0.2, 1.1, 0.2], [0.1, -0.3, 0.9]])}
BCS = {
    'walls': {'lo': ((0, 0), 'D'), 'hi': ((0, 1), 'D'), 'bottom': ((1, 0), 'D'),
              'top': ((1, 1), 'D')},
    'two sides': {'lo': ((0, 0), 'D'), 'top': ((1, 1), 'D')},
    'mixed': {'lo': ((0, 0), 'N'), 'hi': ((0, 1), 'D')},
    'channel': {'bottom': ((1, 0), 'D'), 'top': ((1, 1), 'D')},
    'none': {},
}


def premesh(shape, periodic, bc, curved):
  """A sheared (or curved) grid; the map keeps periodic sides translates."""
  dims = SHAPES[shape]
  coords, els, sides, links = meshes.grid(dims, 1, periodic=periodic)
  if curved:
    coords = meshes.warp_smooth(coords)
  else:
    coords = (coords * (1 + 0.25 * coords)) @ MATRIX[len(dims)].T + 0.3
  groups = {k: sides[s] for k, (s, _) in BCS[bc].items()}
  return Premesh.create(node_coords=coords, elements=els,
                        physical_groups=groups, periodic_links=links), {
      k: (BCType.DIRICHLET if t == 'D' else BCType.NEUMANN, None)
      for k, (_, t) in BCS[bc].items()}


class Case:
  """The operators, and what is known about them independently."""

  def __init__(self, shape, order, periodic=(), bc='walls', curved=False,
               overint=None):
    pre, bcs = premesh(shape, periodic, bc, curved)
    kw = {} if overint is None else {'num_convection_overint_nodes': overint}
    self.sem = StokesSEM.create(pre, bcs, order, **kw)
    m = self.sem.velocity.mesh
    self.order, self.ndim = order, m.ndim
    self.coords, self.els = np.asarray(m.node_coords), np.asarray(m.elements)
    self.n = len(self.coords)
    pm = self.sem.pressure.pspace.mesh
    self.pels, self.np = np.asarray(pm.elements), pm.num_nodes
    # side nodes by position: the periodic copies and the Dirichlet nodes
    fine, fels, fsides, flinks = meshes.grid(SHAPES[shape], order, kind='gll',
                                             periodic=periodic)
    corner, cels, _, _ = meshes.grid(SHAPES[shape], 1)
    del corner, cels
    # the fine grid of this file and the refined mesh agree element by element
    to = np.full(len(fine), -1)
    for a, b in zip(fels, self.els):
      to[a] = b
    if sorted(set(to.tolist())) != list(range(self.n)):
      raise AssertionError('node numbers of the refined mesh')
    self.free = np.ones((self.n, 1))
    for s, t in BCS[bc].values():
      if t == 'D':
        self.free[to[fsides[s].reshape(-1)]] = 0
    rep = meshes.identified(len(fine), flinks)
    # a Dirichlet node is one with a periodic copy in the group
    self.rep = np.arange(self.n)
    for i, r in enumerate(rep):
      self.rep[to[i]] = to[r]
    for r in range(self.n):
      if (self.free[self.rep == r] == 0).any():
        self.free[self.rep == r] = 0
    self.classes = np.unique(self.rep)

  def consistent(self, q):
    """A field that agrees on periodic copies; q (classes, ndim)."""
    pos = {int(c): i for i, c in enumerate(self.classes)}
    return q[np.array([pos[int(r)] for r in self.rep])]


NOTE = ('one to four affine elements (sheared, stretched; transposes and '
        'symmetry also on multilinear ones), velocity orders 2-3 (4 thorough; '
        '3-D order 2), walls on any sides, Neumann sides, periodic '
        'directions; all nodal values in [-1, 1]')


def transposes(h, **kw):
  """Transposes, symmetry, boundary rows, inverse mass."""
  h.func('StokesSEM.create', 'StokesSEM.D', 'StokesSEM.Dt', 'StokesSEM.A',
         'StokesSEM.B', 'StokesSEM.Bi', 'StokesVelocity.C', 'dirichlet_bc')
  h.bound(NOTE)
  c = Case(**kw)
  n, d = c.n, c.ndim
  fixed = np.flatnonzero(c.free[:, 0] == 0)
  sem, free = c.sem, c.free

  def f(u, w, p, q):
    u0, w0 = u * free, w * free
    a, b, cu, dt = sem.A(u), sem.B(u), sem.C(u), sem.Dt(p)
    v = c.consistent(q)
    mass = sem.velocity.scatter(sem.velocity.B_local(sem.velocity.gather(v)))
    return (jnp.sum(sem.D(u0) * p) - jnp.sum(u0 * dt),
            jnp.sum(sem.A(u0) * w0) - jnp.sum(sem.A(w0) * u0),
            jnp.sum(sem.B(u0) * w0) - jnp.sum(sem.B(w0) * u0),
            a[fixed], b[fixed], cu[fixed], dt[fixed],
            sem.Bi(mass), sem.Bi(sem.velocity_mass_diag * v))

  def oracle(u, w, p, q):
    z = np.zeros((len(fixed), d))
    s = np.zeros(())
    v = c.consistent(q)
    return s, s, s, z, z, z, z, v, v

  h.equal(f, oracle, (jsym.poly_vars('u', (n, d)), jsym.poly_vars('w', (n, d)),
                      jsym.poly_vars('p', (c.np,)),
                      jsym.poly_vars('q', (len(c.classes), d))), tol=1e-8,
          label='transposes, symmetry, boundary, inverse mass')


def exactness(h, **kw):
  """Divergence, mass, stiffness and vorticity against exact integrals."""
  h.func('StokesSEM.D', 'StokesSEM.Dt', 'StokesSEM.A', 'StokesSEM.B',
         'StokesSEM.vorticity')
  h.bound(NOTE)
  c = Case(**kw)
  n, d, k, sem = c.n, c.ndim, c.order, c.sem
  x1 = meshes.gll(k + 1)
  sp = Space(x1, c.coords, c.els, k + 4)
  phi, dphi = sp.functions(x1)
  g = np.polynomial.legendre.leggauss(k - 1)[0]
  psi, _ = sp.functions(g)
  # (pressure node, velocity node, component)
  dmat = np.zeros((c.np, n, d))
  lap = np.zeros((n, n))
  one = np.zeros((n, n))
  for e in range(len(c.els)):
    loc = np.einsum('qp,qbx,q->pbx', psi, dphi[e], sp.dx[e])
    dmat[np.ix_(c.pels[e], c.els[e])] += loc
    lap[np.ix_(c.els[e], c.els[e])] += np.einsum(
        'qax,qbx,q->ab', dphi[e], dphi[e], sp.dx[e])
    one[np.ix_(c.els[e], c.els[e])] += np.einsum(
        'qa,qb,q->ab', phi, phi, sp.dx[e])
  free = c.free
  x = c.coords
  d2 = dmat.reshape(c.np, n * d)

  def linear(gm, c0):
    return np.array([[sum(x[i, a] * gm[b, a] for a in range(d)) + c0[b]
                      for b in range(d)] for i in range(n)])

  def f(u, p, gm, c0):
    lin = jnp.einsum('ia,ba->ib', x, gm) + c0
    out = (sem.D(u), sem.Dt(p), sem.D(lin), sem.A(lin), sem.B(lin))
    return out + ((sem.vorticity(lin),) if d == 2 else ())

  # the mass is tested with linear fields against constants (lumped rows)
  rowsum = one.sum(1)

  def oracle(u, p, gm, c0):
    du = sparse_form(d2, u)
    dt = sparse_form(d2.T, p).reshape(n, d) * free
    lin = linear(gm, c0)
    tr = sum(gm[a, a] for a in range(d))
    vol = dmat_one
    alin = np.array([[sum((lap[i, j] * lin[j, b] for j in range(n)
                           if abs(lap[i, j]) > 1e-13), 0.0 * c0[0]) *
                      free[i, 0] for b in range(d)] for i in range(n)])
    blin = lin * (rowsum[:, None] * free)
    out = (du, dt, np.array([tr * v for v in vol]), alin, blin)
    if d == 2:
      w = gm[1, 0] - gm[0, 1]
      out += (np.array([w + 0.0 * c0[0]] * n),)
    return out

  # integrals of the pressure basis functions
  dmat_one = np.zeros(c.np)
  for e in range(len(c.els)):
    dmat_one[c.pels[e]] += np.einsum('qp,q->p', psi, sp.dx[e])
  h.equal(f, oracle, (jsym.poly_vars('u', (n, d)), jsym.poly_vars('p', (c.np,)),
                      jsym.poly_vars('g', (d, d)), jsym.poly_vars('c', (d,))),
          tol=1e-8, label='divergence, gradient, stiffness, vorticity')


def convection(h, **kw):
  """The weak form of (u.grad)u."""
  h.func('StokesVelocity.C', 'StokesVelocity.C_local')
  h.bound(NOTE)
  c = Case(**kw)
  n, d, k, sem = c.n, c.ndim, c.order, c.sem
  x1 = meshes.gll(k + 1)
  sp = Space(x1, c.coords, c.els, 2 * k + 2)
  phi, dphi = sp.functions(x1)
  # t[i, (a, x), b] = int phi_i phi_a d_x phi_b: component by component
  t = np.zeros((n, n * d, n))
  for e in range(len(c.els)):
    loc = np.einsum('qi,qa,qbx,q->iaxb', phi, phi, dphi[e], sp.dx[e])
    for i, gi in enumerate(c.els[e]):
      for a, ga in enumerate(c.els[e]):
        for x in range(d):
          t[gi, ga * d + x, c.els[e]] += loc[i, a, x]

  def oracle(u):
    out = [sparse_form(t, u, u[:, b]) for b in range(d)]
    return np.stack(out, axis=-1) * c.free
  h.equal(sem.C, oracle, (jsym.poly_vars('u', (n, d)),), tol=1e-8,
          label='convection')


def filtering(h, **kw):
  h.func('StokesSEM.filter')
  h.bound('filter: every field and every fraction in [0, 1]')
  c = Case(**kw)
  n, d, k, sem = c.n, c.ndim, c.order, c.sem
  hi, lo = meshes.gll(k + 1), meshes.gll(k)
  m1 = lagrange(lo, hi)[0] @ lagrange(hi, lo)[0]
  m = m1
  for _ in range(d - 1):
    m = np.kron(m, m1)
  # below the top degree nothing changes: checked on coefficients
  pts = np.stack(np.meshgrid(*[hi] * d, indexing='ij'), -1).reshape(-1, d)
  full = np.zeros((n, n))
  for e in c.els:
    full[e] = 0
    full[np.ix_(e, e)] = m
  assert np.allclose(m @ np.prod(pts ** (k - 1), axis=1),
                     np.prod(pts ** (k - 1), axis=1))
  # fields that vanish at the coarse nodes of one direction
  bubble = np.prod([hi - l for l in lo], axis=0)

  def oracle(u, alpha, s):
    low = np.stack([sparse_form(full, u[:, b]) for b in range(d)], -1)
    out = [(1 - alpha) * u + alpha * low]
    for ax in range(d):
      out.append((1 - alpha) * field(s, ax))
    return tuple(out)

  def field(s, ax):
    """Top degree in direction ax times anything in the others (one element
    after the other; the bubble vanishes on the facets across ax)."""
    fac, src = np.zeros(n), np.zeros(n, dtype=int)
    for e in c.els:
      i = np.array(np.unravel_index(np.arange(len(e)), (k + 1,) * d))
      fac[e] = bubble[i[ax]]
      i[ax] = 1             # the value on the line through the node
      src[e] = e[np.ravel_multi_index(tuple(i), (k + 1,) * d)]
    return s[src] * fac[:, None]

  def f(u, alpha, s):
    return (sem.filter(u, alpha=alpha),) + tuple(
        sem.filter(field(s, ax), alpha=alpha) for ax in range(d))
  h.equal(f, oracle, (jsym.poly_vars('u', (n, d)), jsym.poly_vars('alpha', ()),
                      jsym.poly_vars('s', (n, d))),
          tol=1e-8, box={'alpha': (0.0, 1.0)}, label='filter')


def fan(h, *, sides, order):
  """Elements that meet in one node: averages are normalised."""
  h.func('StokesSEM.filter', 'StokesSEM.vorticity')
  h.bound(f'{sides} parallelograms around a node, every polynomial velocity '
          'below the top degree')
  t = 2 * np.pi * np.arange(sides) / sides
  ring = np.stack([np.cos(t), 0.8 * np.sin(t)], -1)
  outer = ring + np.roll(ring, -1, axis=0)
  coords = np.concatenate([np.zeros((1, 2)), ring, outer])
  els = np.array([[0, 1 + i, 1 + (i + 1) % sides, 1 + sides + i]
                  for i in range(sides)])
  sem = StokesSEM.create(Premesh.create(node_coords=coords, elements=els), {},
                         order)
  x = np.asarray(sem.velocity.mesh.node_coords)
  powers = [(i, j) for i in range(order) for j in range(order - i)]
  mono = np.stack([x[:, 0] ** i * x[:, 1] ** j for i, j in powers], -1)
  dx = np.stack([i * x[:, 0] ** max(i - 1, 0) * x[:, 1] ** j
                 for i, j in powers], -1)
  dy = np.stack([j * x[:, 0] ** i * x[:, 1] ** max(j - 1, 0)
                 for i, j in powers], -1)

  def f(q):
    u = jnp.asarray(mono) @ q
    return sem.filter(u, alpha=0.3), sem.vorticity(u)

  def oracle(q):
    return mono @ q, dx @ q[:, 1] - dy @ q[:, 0]

  h.equal(f, oracle, (jsym.poly_vars('q', (len(powers), 2)),), tol=1e-8,
          label='fan')


def high_order(h, *, overint, **kw):
  """The operators at higher orders, on combinations of fixed fields."""
  h.func('StokesSEM.D', 'StokesSEM.Dt', 'StokesSEM.A', 'StokesSEM.B',
         'StokesSEM.Bi', 'StokesSEM.Q', 'StokesVelocity.C',
         'StokesSEM.filter', 'StokesSEM.vorticity')
  h.bound('orders 4-12 (3-D: 4): combinations with any coefficients of fixed '
          'random polynomials (of the degrees that the rules integrate '
          'exactly), tested with fixed random fields; 0-6 further points for '
          'the convection; time orders 1-8')
  c = Case(overint=overint, **kw)
  n, d, k, sem = c.n, c.ndim, c.order, c.sem

  def pressure():
    have = np.asarray(Case(overint=overint, **kw).pels).shape[1]
    if have != (k - 1) ** d:
      return (f'{have} pressure nodes per element at order {k} instead of '
              f'{(k - 1) ** d}')
  h.smoke(pressure)
  o = 2 if overint is None else overint
  x1, g = meshes.gll(k + 1), np.polynomial.legendre.leggauss(k - 1)[0]
  sp = Space(x1, c.coords, c.els, 2 * k + 2)
  phi, dphi = sp.functions(x1)
  psi, _ = sp.functions(g)
  rng = np.random.default_rng(k)
  mid = c.coords.mean(0)
  mono = lambda x, deg: np.stack(
      [np.prod((x - mid) ** np.array(e), axis=-1) for e in np.ndindex(
          *(deg + 1,) * d) if sum(e) <= deg], -1)

  def fields(deg, m):
    """m vector fields of the degree: nodal values, values and gradients at
    the points of each element."""
    co = rng.normal(size=(mono(c.coords, deg).shape[-1], d, m))
    v = np.einsum('nt,tbm->mnb', mono(c.coords, deg), co)
    return v / np.abs(v).max(axis=(1, 2), keepdims=True)

  at = lambda v: np.einsum('qa,meab->meqb', phi, v[:, c.els])
  gr = lambda v: np.einsum('eqax,meab->meqxb', dphi, v[:, c.els])
  m = 3
  low, full = fields(k - 1, m), fields(k, m)
  ca = min(k, (k + 2 * o - 1) // 2)
  con = fields(ca, m)
  test = c.free * rng.uniform(-1, 1, size=(m, n, d))
  ptest = rng.uniform(-1, 1, size=(m, c.np))
  pat = np.einsum('qa,mea->meq', psi, ptest[:, c.pels])
  dx = sp.dx
  stiff = np.einsum('meqxb,teqxb,eq->tm', gr(low), gr(test), dx)
  mass = np.einsum('meqb,teqb,eq->tm', at(low), at(test), dx)
  diver = np.einsum('meqxx,teq,eq->tm', gr(full), pat, dx)
  conv = np.einsum('leqx,meqxb,teqb,eq->tlm', at(con), gr(con), at(test), dx)
  lo = meshes.gll(k)
  m1 = lagrange(lo, x1)[0] @ lagrange(x1, lo)[0]
  mm = m1
  for _ in range(d - 1):
    mm = np.kron(mm, m1)
  avg = np.zeros((n, n))
  mult = np.zeros(n)
  for e in c.els:
    avg[np.ix_(e, e)] += mm
    mult[e] += 1
  top = fields(k + 2, m)              # interpolated: any nodal values do
  ft = np.einsum('tnb,mnb->tm', test, top)
  ff = np.einsum('tnb,mnb->tm', test, np.einsum(
      'ij,mjb->mib', avg / mult[:, None], top))
  wt = rng.uniform(-1, 1, size=(m, n))
  gl = np.zeros((m, n, d, d))
  for e in range(len(c.els)):
    _, db = basis(x1, d, x1)
    jac = np.einsum('qbm,bx->qxm', db, c.coords[c.els[e]])
    inv = np.linalg.inv(jac)
    gl[:, c.els[e]] = np.einsum('qam,qmx,tab->tqxb', db, inv,
                                low[:, c.els[e]])
  vort = (np.einsum('tn,mn->tm', wt, gl[..., 0, 1] - gl[..., 1, 0])
          if d == 2 else np.zeros((m, m)))
  beta = [1.0, 3 / 2, 11 / 6, 25 / 12, 137 / 60, 49 / 20, 363 / 140, 761 / 280]
  comb = lambda f, q: jnp.einsum('mnb,m->nb', jnp.asarray(f), q)
  dot = lambda t, u: jnp.einsum('tnb,nb->t', jnp.asarray(t), u)

  def f(q, r, alpha):
    pr = jnp.asarray(ptest).T @ r
    bi = sem.Bi(sem.velocity_mass_diag * comb(top, q))
    out = [dot(test, sem.A(comb(low, q))), dot(test, sem.B(comb(low, q))),
           jnp.asarray(ptest) @ sem.D(comb(full, q)),
           jnp.einsum('mnb,nb->m', jnp.asarray(full) * c.free, sem.Dt(pr)),
           dot(test, sem.C(comb(con, q))),
           dot(test, sem.filter(comb(top, q), alpha=alpha)),
           dot(test, bi),
           jnp.asarray(wt) @ sem.vorticity(comb(low, q)) if d == 2
           else 0 * q]
    for t in range(8):
      out.append(dot(test, sem.Q(sem.velocity_mass_diag * comb(top, q), 0.25,
                                 t + 1)))
    return tuple(out)

  lin = lambda mat, q: np.array([sum(float(a) * b for a, b in zip(r, q))
                                 for r in mat])
  # the transposed operator does not see what is on the walls
  dt_free = np.einsum('meqxx,teq,eq->tm', gr(full * c.free), pat, dx)

  def oracle(q, r, alpha):
    al = alpha.item() if isinstance(alpha, np.ndarray) else alpha
    out = [lin(stiff, q), lin(mass, q), lin(diver, q), lin(dt_free.T, r),
           np.array([sum(float(conv[t, i, j]) * q[i] * q[j] for i in range(m)
                         for j in range(m)) for t in range(m)]),
           (1 - al) * lin(ft, q) + al * lin(ff, q), lin(ft, q), lin(vort, q)]
    for t in range(8):
      out.append(lin(ft * 0.25 / beta[t], q))
    return tuple(out)

  h.equal(f, oracle, (jsym.poly_vars('q', (m,)), jsym.poly_vars('r', (m,)),
                      jsym.poly_vars('alpha', ())), tol=1e-6,
          box={'alpha': (0.0, 1.0)}, label='higher orders')


def default_filter(h):
  """The documented default fraction."""
  h.func('StokesSEM.filter')
  c = Case('one', 2)
  u = jsym.poly_vars('u', (c.n, 2))
  h.equal(c.sem.filter, lambda u: jsym.call(
      lambda v: c.sem.filter(v, alpha=0.05), u) if jsym.is_sym(u) else
          np.asarray(c.sem.filter(u, alpha=0.05)), (u,), label='default filter')


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(fn, **kw):
    out.append((f'{fn.__name__} ' + ' '.join(f'{v}' for v in kw.values()), fn,
                kw))
  for bc in BCS:
    add(transposes, shape='strip', order=2, periodic=(), bc=bc)
    add(transposes, shape='strip', order=2, periodic=(), bc=bc, curved=True)
  add(transposes, shape='one', order=3, periodic=(), bc='two sides')
  add(transposes, shape='one', order=3, periodic=(), bc='mixed', curved=True)
  for bc in ('channel', 'none'):
    add(transposes, shape='strip', order=2, periodic=(0,), bc=bc)
  add(transposes, shape='square', order=2, periodic=(0, 1), bc='none')
  add(transposes, shape='square', order=2, periodic=(1,), bc='mixed')
  add(transposes, shape='column', order=2, periodic=(1,), bc='two sides')
  add(transposes, shape='cube', order=2, periodic=(), bc='two sides')
  for bc in ('mixed', 'none', 'walls'):
    add(exactness, shape='strip', order=2, periodic=(), bc=bc)
    add(exactness, shape='one', order=3, periodic=(), bc=bc)
  add(exactness, shape='column', order=3, periodic=(), bc='two sides')
  add(exactness, shape='cube', order=2, periodic=(), bc='two sides')
  for bc in ('mixed', 'none'):
    add(convection, shape='strip', order=2, periodic=(), bc=bc)
  add(convection, shape='one', order=2, periodic=(), bc='two sides')
  add(convection, shape='one', order=3, periodic=(), bc='mixed')
  add(convection, shape='one', order=2, periodic=(), bc='none', curved=False,
      overint=4)
  for o in (2, 3):
    add(filtering, shape='one', order=o)
    add(filtering, shape='strip', order=o)
  add(filtering, shape='square', order=2, periodic=(0,), bc='channel')
  add(filtering, shape='block', order=2)
  add(fan, sides=5, order=2)
  add(fan, sides=6, order=3)
  for o, ov in ((4, None), (5, 3), (6, None), (7, 4), (8, 0), (12, None)):
    add(high_order, shape='one', order=o, periodic=(), bc='two sides',
        overint=ov)
  add(high_order, shape='strip', order=6, periodic=(), bc='mixed', overint=6)
  add(high_order, shape='strip', order=5, periodic=(), bc='none', overint=1)
  add(high_order, shape='cube', order=4, periodic=(), bc='two sides',
      overint=None)
  out.append(('default filter', default_filter, {}))
  if th:
    add(transposes, shape='strip', order=3, periodic=(0,), bc='channel')
    add(transposes, shape='square', order=3, periodic=(0, 1), bc='none')
    add(transposes, shape='one', order=4, periodic=(), bc='two sides')
    add(exactness, shape='square', order=3, periodic=(), bc='two sides')
    add(exactness, shape='one', order=4, periodic=(), bc='mixed')
    add(convection, shape='square', order=2, periodic=(), bc='channel')
    add(convection, shape='strip', order=3, periodic=(), bc='none')
    add(filtering, shape='one', order=4)
    add(filtering, shape='cube', order=2)
    add(filtering, shape='square', order=3)
    add(filtering, shape='block', order=3)
    add(fan, sides=9, order=4)
  return out
