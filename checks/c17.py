"""C17: a Stokes step satisfies the discrete equations."""
import contextlib

import numpy as np

from vlib import boot, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from checks.c16 import Case
from vlib.fem import sparse_form
from vlib.sym import Unsupported
import swirl_fem.linalg.cg as swirl_cg
from swirl_fem.navier_stokes import navier_stokes as ns

# backward differentiation of order k, oldest sample first
BDF = {1: [-1.0, 1.0], 2: [0.5, -2.0, 1.5],
       3: [-1 / 3, 1.5, -3.0, 11 / 6], 4: [1 / 4, -4 / 3, 3.0, -4.0, 25 / 12],
       5: [-1 / 5, 5 / 4, -10 / 3, 5.0, -5.0, 137 / 60]}


class Solves:
  """Stands in for the inner solver: answers with given fields."""

  def __init__(self, answers):
    self.answers = list(answers)
    self.seen = []

  def cg(self, A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None,
         dot_fn=None):
    if len(self.seen) == len(self.answers):
      raise Unsupported('more than two inner solves')
    x = self.answers[len(self.seen)]
    self.seen.append(dict(A=A, b=b, tol=tol, atol=atol, M=M))
    return x, {'residual': jnp.zeros(()), 'num_iterations': 0}

  def custom(self, matvec, b, solve, transpose_solve=None, symmetric=False,
             has_aux=False):
    out = solve(matvec, b)
    return out


@contextlib.contextmanager
def stub(s):
  """Replaces the solvers the module can reach."""
  reals = {id(swirl_cg.cg): s.cg, id(jax.scipy.sparse.linalg.cg): s.cg,
           id(jax.lax.custom_linear_solve): s.custom}
  saved = []
  for o in (swirl_cg, jax.scipy.sparse.linalg, jax.lax, ns):
    for k, v in list(vars(o).items()):
      if id(v) in reals:
        saved.append((o, k, v))
  new = [(o, k, reals[id(v)]) for o, k, v in saved]
  for o, k, v in new:
    setattr(o, k, v)
  try:
    yield
  finally:
    for o, k, v in saved:
      setattr(o, k, v)


NOTE = ('one to four elements (affine and multilinear), velocity orders 2-3, '
        'time orders 1-5, walls, Neumann and periodic sides; all histories, '
        'forcings, solutions, boundary data in [-1, 1], viscosities in [-1, '
        '1], time steps in [0.01, 1] (small cases) or 1/10, 1/2, 3/1000, symbolic tolerances and '
        'filter fractions')


def low_degree(c, box=None):
  """Maps coefficients to fields below the top degree in every direction."""
  k, d = c.order, c.ndim
  x1 = meshes.gll(k + 1)
  lo = meshes.gll(k)
  from vlib.fem import lagrange
  m1 = lagrange(lo, x1)[0] @ lagrange(x1, lo)[0]
  m = m1
  for _ in range(d - 1):
    m = np.kron(m, m1)
  full = np.zeros((c.n, c.n))
  for e in c.els:
    full[e] = 0
    full[np.ix_(e, e)] = m
  return full


def step(h, *, time_order, dt, boundary=None, pre='default', alpha0=False,
         static=None, **kw):
  h.func('StokesSEM.stokes_one_step', 'StokesSEM.Q', 'StokesSEM.E',
         'bdfk_coeffs', 'extk_coeffs', '_pressure_project_out_nullspace')
  h.bound(NOTE)
  h.assume('the two inner linear solves are answered with arbitrary fields; '
           'exactness of a solve means that its residual vanishes (C15 covers '
           'the solver), velocities of the first solve vanish at Dirichlet '
           'nodes')
  h.assume('forcings are covectors that vanish at Dirichlet nodes; at least '
           'two previous pressures are given, also at time order 1')
  c = Case(**kw)
  sem, n, d = c.sem, c.n, c.ndim
  free = c.free
  fixed = np.flatnonzero(free[:, 0] == 0)
  beta = BDF[time_order]
  npre = max(time_order, 2)
  interp = low_degree(c)

  def own_pre(p):
    return 3 * p + 1

  def rows(m, u):
    if isinstance(u, np.ndarray) and u.dtype == object:
      return np.stack([sparse_form(m, u[:, b]) for b in range(d)], -1)
    return jnp.einsum('ij,jb->ib', m, u) if not isinstance(
        u, np.ndarray) else m @ u

  def inputs(force, ub, x1):
    force, x1 = force * free, x1 * free
    if boundary == 'low':
      ub = rows(interp, ub)
    return force, ub, x1

  def f(us, ps, force, ub, x1, x2, probe_u, probe_p, mu, alpha, tol, atol,
        dt=dt):
    force, ub, x1 = inputs(force, ub, x1)
    s = Solves([x1, x2])
    args = {}
    if boundary:
      args['u_boundary'] = ub
    if pre == 'given':
      args['pressure_preconditioner'] = own_pre
    if pre == 'none':
      args['project_out_nullspace'] = False
    with stub(s):
      u, p, _ = sem.stokes_one_step(
          [us[i] for i in range(time_order)], [ps[i] for i in range(npre)],
          force, mu=mu, dt=dt, time_order=time_order, alpha=alpha, tol=tol,
          atol=atol, **args)
      if len(s.seen) != 2:
        raise Unsupported(f'{len(s.seen)} inner solves')
      r1 = s.seen[0]['A'](x1) - s.seen[0]['b']
      r2 = s.seen[1]['A'](x2) - s.seen[1]['b']
    ident = lambda x: x
    m1 = (s.seen[0]['M'] or ident)(probe_u)
    m2 = (s.seen[1]['M'] or ident)(probe_p)
    total = x1 + ub if boundary else x1
    corr = u - sem.filter(total, alpha=alpha)
    if pre == 'default':
      w = jnp.sum(sem.pressure.B(m2))
      # constants are removed, nothing else is
      shift = m2 - probe_p
      m2 = jnp.concatenate([w[None], shift[1:] - shift[:-1]])
    out = (sem.velocity.exchange(r1), sem.D(u) - r2, p, m1, m2, corr,
           jnp.stack([jnp.asarray(s.seen[i][k]) for i in (0, 1)
                      for k in ('tol', 'atol')]))
    if boundary:
      out += (u[fixed],)
    return out

  def run(g, *a):
    if any(getattr(x, 'dtype', None) == object for x in a):
      return jsym.call(g, *a)
    return np.asarray(g(*a))

  def oracle(us, ps, force, ub, x1, x2, probe_u, probe_p, mu, alpha, tol,
             atol, dt=dt):
    dt = dt if isinstance(dt, float) else np.asarray(dt).item()
    force, ub, x1 = inputs(force, ub, x1)
    mu, tol, atol = [np.asarray(x).item() for x in (mu, tol, atol)]
    total = x1 + ub if boundary else x1
    p_ext = 2 * ps[npre - 1] - ps[npre - 2]
    hist = beta[-1] * total
    for i in range(time_order):
      hist = hist + beta[i] * us[i]
    # time derivative + viscosity - pressure gradient - forcing
    bal = (run(sem.B, hist) / dt + mu * run(sem.A, total)
           - run(sem.Dt, p_ext) - force)
    bal = run(sem.velocity.exchange, bal)
    corr = run(lambda x: sem.Bi(sem.Dt(x)), x2) * (dt / beta[-1])
    if pre == 'default':
      m2 = np.zeros(c.np)
    elif pre == 'given':
      m2 = own_pre(probe_p)
    else:
      m2 = probe_p
    out = (bal, np.zeros(c.np), p_ext + x2, run(sem.velocity.exchange, probe_u),
           m2, corr, np.array([tol, atol, tol, atol]))
    if boundary:
      out += (ub[fixed],)
    return out

  v = jsym.poly_vars
  if alpha0:
    full_f, full_o = f, oracle
    f = lambda *a: full_f(*a[:9], 0.0, *a[9:])
    oracle = lambda *a: full_o(*a[:9], 0.0, *a[9:])
  if static:
    # viscosity, fraction and tolerances are Python numbers
    dyn_f, dyn_o = f, oracle
    f = lambda *a: dyn_f(*a, *static)
    oracle = lambda *a: dyn_o(*a, *static)
  args = [v('u', (time_order, n, d)), v('p', (npre, c.np)), v('f', (n, d)),
          v('g', (n, d)), v('x', (n, d)), v('y', (c.np,)), v('a', (n, d)),
          v('b', (c.np,))]
  if not static:
    args += [v(name, ()) for name in ('mu', 'alpha', 'tol', 'atol')
             if name != 'alpha' or not alpha0]
  if dt is None:
    args.append(v('dt', ()))
  h.equal(f, oracle, tuple(args), tol=1e-7,
          box={'dt': (0.01, 1.0), '__den__': 0.01},
          label='momentum, divergence, pressure, preconditioners, boundary')


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(**kw):
    out.append((' '.join(f'{k}={v}' for k, v in kw.items()), step, kw))
  for k in (1, 2, 3):
    add(time_order=k, dt=0.1, shape='strip', order=2, periodic=(),
        bc='two sides')
    add(time_order=k, dt=0.1, shape='strip', order=2, periodic=(0,),
        bc='channel')
    add(time_order=k, dt=None, shape='one', order=2, periodic=(),
        bc='two sides', **({'boundary': 'low'} if k == 2 else {}))
  add(time_order=2, dt=0.5, shape='one', order=3, periodic=(), bc='mixed',
      curved=True)
  add(time_order=3, dt=0.5, shape='one', order=2, periodic=(), bc='none')
  add(time_order=2, dt=0.1, shape='square', order=2, periodic=(0, 1),
      bc='none')
  for pre in ('given', 'none'):
    add(time_order=1, dt=0.1, shape='strip', order=2, periodic=(0,),
        bc='channel', pre=pre)
  for b, a0 in (('low', False), ('any', True)):
    add(time_order=2, dt=0.1, shape='strip', order=2, periodic=(),
        bc='two sides', boundary=b, alpha0=a0)
    add(time_order=1, dt=0.5, shape='strip', order=2, periodic=(0,),
        bc='channel', boundary=b, alpha0=a0)
    add(time_order=1, dt=0.1, shape='one', order=3, periodic=(), bc='walls',
        boundary=b, alpha0=a0)
  for k in (4, 5):
    add(time_order=k, dt=0.2, shape='one', order=2, periodic=(),
        bc='two sides')
  # (viscosity, filter fraction, tolerances)
  for st in ((0.0, 0.05, 1e-8, 0.0), (0.02, 0.0, 0.0, 1e-3),
             (1.5, 1.0, 1e-8, 1e-8)):
    add(time_order=2, dt=0.1, shape='one', order=2, periodic=(),
        bc='two sides', boundary='low', static=st)
  add(time_order=2, dt=0.1, shape='one', order=6, periodic=(), bc='two sides',
      static=(0.1, 0.05, 1e-8, 0.0))
  if th:
    for k in (1, 2, 3):
      add(time_order=k, dt=0.003, shape='strip', order=3, periodic=(),
          bc='two sides', boundary='low')
      add(time_order=k, dt=0.1, shape='square', order=2, periodic=(1,),
          bc='mixed', boundary='any', alpha0=True)
    add(time_order=2, dt=0.1, shape='square', order=3, periodic=(0, 1),
        bc='none')
    add(time_order=2, dt=0.1, shape='cube', order=2, periodic=(),
        bc='two sides')
    add(time_order=2, dt=0.1, shape='strip', order=3, periodic=(0,),
        bc='channel', curved=False, pre='given')
  return out
