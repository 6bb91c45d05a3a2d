"""C31: the flow drivers feed the Stokes solver and record its states."""
import inspect
import types

import numpy as np

from vlib import boot, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax.numpy as jnp
from checks.c16 import Case
from checks.c25 import patched
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
from swirl_fem.niles import train
from swirl_fem.niles.datagen import datagen

SIGNATURE = inspect.signature(StokesSEM.stokes_one_step)


class Solver:
  """Stands in for the Stokes solver: records arguments, answers as told."""

  def __init__(self, us, ps):
    self.us, self.ps = us, ps
    self.calls = []

  def method(self):
    def stokes_one_step(sem, *a, **k):
      b = SIGNATURE.bind(sem, *a, **k)
      b.apply_defaults()
      i = len(self.calls)
      self.calls.append(b.arguments)
      return self.us[i], self.ps[i], {}
    return stokes_one_step


class Shim:
  """A module with some names replaced."""

  def __init__(self, real, **over):
    self.__dict__.update(over)
    self.__dict__['_real'] = real

  def __getattr__(self, name):
    return getattr(self._real, name)


class Store:
  """Stands in for the file library; keeps what is written."""

  def __init__(self):
    self.data = {}
    self.File = self.open

  def open(self, *a, **k):
    return self

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def __setitem__(self, k, v):
    self.data[k] = v

  def create_dataset(self, name, *a, data=None, **k):
    self.data[name] = data


class NoFile:
  def __init__(self, *a):
    pass

  def __getattr__(self, name):
    return lambda *a, **k: self

  def __truediv__(self, o):
    return self


def extrapolation(k):
  """One step ahead of k equally spaced samples, oldest first."""
  return [float(np.prod([(k - i) / (j - i) for i in range(k) if i != j]))
          for j in range(k)]


def forcing(coords, u, drag):
  out = np.array(-1 * drag * u) if not hasattr(u, 'aval') else -drag * u
  s = np.sin(8 * np.pi * coords[:, 1])
  col = np.stack([s, 0 * s], -1)
  return out + col


def run(g, *a):
  if any(getattr(x, 'dtype', None) == object for x in a):
    return jsym.call(g, *a)
  return np.asarray(g(*a))


def item(x):
  return np.asarray(x).item()


NOTE = ('one to four elements with velocity order 2; all histories, solver '
        'answers and closure terms in [-1, 1], time steps and drag in '
        '[-1, 1], Reynolds numbers in [1, 2]')


def light(sem):
  """Cheap linear stand-ins for the operators, for long runs."""
  n = sem.velocity.mesh.num_nodes
  w = np.linspace(0.5, 1.5, 2 * n).reshape(n, 2)

  def b(self, u):
    return w * u

  def c(self, u):
    return (2 - w) * u + 0.25 * jnp.roll(u, 1, axis=0)
  return b, c


def cycle(h, *, time_order, steps, start, heavy, shape):
  """One cycle of data generation."""
  h.func('datagen.one_cycle', 'datagen._solve_one_step', 'datagen.forcing')
  h.bound(NOTE + '; time orders 2-4, cycles of up to 21 steps')
  h.assume('the Stokes solver is replaced by arbitrary answers and its '
           'arguments recorded (C17 covers it); runs longer than two steps '
           'use stand-ins for the mass and convection operators')
  c = Case(shape, 2, (0, 1), 'none')
  sem, n, k = c.sem, c.n, time_order
  ops = [] if heavy else [(StokesSEM, 'B', light(sem)[0]),
                          (StokesSEM, 'C', light(sem)[1])]

  def f(us, ps, ua, pa, dt, re, drag):
    s, st = Solver(ua, pa), Store()
    stack = lambda xs, axis=0: jnp.stack([jnp.asarray(x) for x in xs], axis)
    ident = lambda g=None, **kw: g if g is not None else (lambda q: q)
    with patched(
        (StokesSEM, 'stokes_one_step', s.method()),
        (datagen, 'TIME_ORDER', k), (datagen, 'DT', dt),
        (datagen, 'REYNOLDS_NUMBER', re), (datagen, 'DRAG_COEFF', drag),
        (datagen, 'np', Shim(np, stack=stack, array=jnp.array,
                             asarray=jnp.asarray)),
        (datagen, 'jax', Shim(datagen.jax, jit=ident)),
        (datagen, 'h5py', st), (datagen, 'epath', types.SimpleNamespace(
            Path=NoFile)),
        (datagen, 'FLAGS', types.SimpleNamespace(workdir='/nowhere')), *ops):
      u2, p2 = datagen.one_cycle(
          sem, start, steps, tuple(us[i] for i in range(k)),
          tuple(ps[i] for i in range(k)))
    return results(s.calls, k) + (
        jnp.stack(u2), jnp.stack(p2), st.data['u'], st.data['p'],
        st.data['t'])

  def oracle(us, ps, ua, pa, dt, re, drag):
    dt, re, drag = item(dt), item(re), item(drag)
    b, cc = (sem.B, sem.C) if heavy else [
        (lambda u, g=g: g(None, u)) for g in light(sem)]
    allu = [us[i] for i in range(k)] + [ua[i] for i in range(steps)]
    allp = [ps[i] for i in range(k)] + [pa[i] for i in range(steps)]
    conv = [run(cc, u) for u in allu[:k + steps - 1]]
    calls = []
    for i in range(steps):
      f = run(b, forcing(c.coords, allu[i + k - 1], drag))
      for w, x in zip(extrapolation(k), conv[i:i + k]):
        f = f - w * x
      calls.append((np.stack(allu[i:i + k]), np.stack(allp[i:i + k]), f,
                    1 / re, dt, k))
    kept = [0] + [i for i in range(1, steps + 1) if i % 10 == 0]
    return expected(calls) + (
        np.stack(allu[-k:]), np.stack(allp[-k:]),
        np.stack([allu[k - 1 + i] for i in kept]),
        np.stack([allp[k - 1 + i] for i in kept]),
        np.array([(start + i) * dt for i in kept]))

  v = jsym.poly_vars
  h.equal(f, oracle,
          (v('u', (k, n, 2)), v('p', (k, c.np)), v('x', (steps, n, 2)),
           v('y', (steps, c.np)), v('dt', ()), v('re', ()), v('drag', ())),
          tol=1e-7, box={'re': (1.0, 2.0), '__den__': 0.5},
          label='solver arguments, final histories, snapshots and times')


def results(calls, k):
  """Arguments of the recorded calls as stacked arrays."""
  first = [jnp.stack([jnp.stack(list(c['us'])) for c in calls]),
           jnp.stack([jnp.stack(list(c['ps'])) for c in calls]),
           jnp.stack([c['f'] for c in calls])]
  rest = [jnp.stack([jnp.asarray(c[x], dtype=jnp.float64) for c in calls])
          for x in ('mu', 'dt', 'time_order')]
  none = jnp.asarray([float(c['u_boundary'] is None) for c in calls])
  return tuple(first + rest + [none])


def expected(calls):
  out = []
  for i in range(6):
    xs = [np.asarray(c[i]) for c in calls]
    out.append(np.stack(xs))
  return tuple(out) + (np.ones(len(calls)),)


def training(h, *, time_order, shape):
  """One solver step of the training loss."""
  h.func('train._solve_one_step', 'train._kolmogorov_forcing')
  h.bound(NOTE + '; time orders 2-4')
  c = Case(shape, 2, (0, 1), 'none')
  sem, n, k = c.sem, c.n, time_order

  def f(us, ps, cus, force, ua, pa, dt, re, drag, alpha):
    s = Solver(ua[None], pa[None])
    cfg = types.SimpleNamespace(time_order=k, dt=dt, reynolds_number=re,
                                drag_coeff=drag, alpha=alpha)
    with patched((StokesSEM, 'stokes_one_step', s.method())):
      u, p, cu = train._solve_one_step(
          tuple(us[i] for i in range(k)), tuple(ps[i] for i in range(k)),
          tuple(cus[i] for i in range(k)), force, sem=sem, config=cfg)
    return results(s.calls, k) + (u, p, cu, s.calls[0]['alpha'])

  def oracle(us, ps, cus, force, ua, pa, dt, re, drag, alpha):
    dt, re, drag, alpha = item(dt), item(re), item(drag), item(alpha)
    b = run(sem.B, force + forcing(c.coords, us[k - 1], drag))
    for w, i in zip(extrapolation(k), range(k)):
      b = b - w * cus[i]
    return expected([(us, ps, b, 1 / re, dt, k)]) + (
        ua, pa, run(sem.C, ua), np.asarray(alpha))

  v = jsym.poly_vars
  h.equal(f, oracle,
          (v('u', (k, n, 2)), v('p', (k, c.np)), v('c', (k, n, 2)),
           v('f', (n, 2)), v('x', (n, 2)), v('y', (c.np,)), v('dt', ()),
           v('re', ()), v('drag', ()), v('al', ())),
          tol=1e-7, box={'re': (1.0, 2.0), '__den__': 0.5},
          label='solver arguments and results')


class Files:
  """Stands in for the file library and the paths: keeps all that is written."""

  def __init__(self):
    self.data, self.names, outer = [], [], self

    class Path(NoFile):
      def __init__(self, *a):
        outer.names.append('/'.join(map(str, a)))

    self.Path, self.File = Path, self.open

  def open(self, *a, **k):
    s = Store()
    self.data.append(s.data)
    return s


def simulation(h, *, time_order, cycles, steps):
  """The whole data generation run: cycles continue one trajectory."""
  h.func('datagen.run_simulation', 'datagen.one_cycle', 'datagen.u_init_fn')
  h.bound(NOTE + '; runs of up to 4 cycles of up to 20 steps on four elements')
  h.assume('mesh and operators are built beforehand and handed to the run '
           '(their arguments are compared)')
  c = Case('square', 2, (0, 1), 'none')
  sem, n, k = c.sem, c.n, time_order
  total = cycles * steps
  made, names = [], []

  def create(premesh, boundary_conditions=None, order=None, **kw):
    made.append((premesh, dict(boundary_conditions), order))
    return sem
  b, cc = light(sem)
  ops = [(StokesSEM, 'B', b), (StokesSEM, 'C', cc)]
  where = dict(time_order=k, cycles=cycles, steps=steps)

  def f(ua, pa, dt, re, drag):
    s, st = Solver(ua, pa), Files()
    stack = lambda xs, axis=0: jnp.stack([jnp.asarray(x) for x in xs], axis)
    ident = lambda g=None, **kw: g if g is not None else (lambda q: q)
    with patched(
        (StokesSEM, 'stokes_one_step', s.method()),
        (StokesSEM, 'create', create),
        (datagen, 'TIME_ORDER', k), (datagen, 'DT', dt),
        (datagen, 'REYNOLDS_NUMBER', re), (datagen, 'DRAG_COEFF', drag),
        (datagen, 'RESOLUTION', 2), (datagen, 'ORDER', 2),
        (datagen, 'NUM_CYCLES', cycles), (datagen, 'NUM_STEPS_PER_CYCLE', steps),
        (datagen, 'compute_dx', lambda mesh: 0.5),
        (datagen, 'np', Shim(np, stack=stack, array=jnp.array,
                             asarray=jnp.asarray, float32=lambda x: x)),
        (datagen, 'jax', Shim(datagen.jax, jit=ident)),
        (datagen, 'logging', NoFile()),
        (datagen, 'h5py', st),
        (datagen, 'epath', types.SimpleNamespace(Path=st.Path)),
        (datagen, 'FLAGS', types.SimpleNamespace(workdir='/nowhere')), *ops):
      datagen.run_simulation()
    names[:] = st.names
    return results(s.calls, k) + tuple(
        tuple(d[x] for x in ('u', 'p', 't')) for d in st.data)

  def oracle(ua, pa, dt, re, drag):
    dt, re, drag = item(dt), item(re), item(drag)
    first = np.stack([np.asarray(datagen.u_init_fn(jnp.asarray(x)))
                      for x in c.coords])
    zero = np.zeros(c.np)
    allu = [first] * k + [ua[i] for i in range(total)]
    allp = [zero] * k + [pa[i] for i in range(total)]
    conv = [run(lambda u: cc(None, u), u) for u in allu[:k + total - 1]]
    calls = []
    for i in range(total):
      g = run(lambda u: b(None, u), forcing(c.coords, allu[i + k - 1], drag))
      for w, x in zip(extrapolation(k), conv[i:i + k]):
        g = g - w * x
      calls.append((np.stack(allu[i:i + k]), np.stack(allp[i:i + k]), g,
                    1 / re, dt, k))
    out = []
    for q in range(cycles):
      kept = [q * steps + i for i in range(steps + 1) if i % 10 == 0]
      out.append((np.stack([allu[k - 1 + i] for i in kept]),
                  np.stack([allp[k - 1 + i] for i in kept]),
                  np.array([i * dt for i in kept])))
    return expected(calls) + tuple(out)

  v = jsym.poly_vars
  h.equal(f, oracle,
          (v('x', (total, n, 2)), v('y', (total, c.np)), v('dt', ()),
           v('re', ()), v('drag', ())), tol=1e-7,
          box={'re': (1.0, 2.0), '__den__': 0.5},
          label='solver arguments, files')
  if len(names) != cycles or len(set(names)) != cycles or not all(
      x.startswith('/nowhere/') for x in names):
    h.fail(f'{cycles} cycles are written to {names}', where)
  pm, bc, order = made[0]
  if bc or order != 2 or np.shape(pm.elements) != (4, 4) or (
      pm.periodic_links is None or len(pm.periodic_links) != 4):
    h.fail('the run is not on the periodic unit square', where)


def generated(h):
  """A real run, small: solver, operators and files."""
  h.func('datagen.run_simulation')
  h.assume('one concrete run of two cycles with the real solver and files')

  def one():
    import os
    import tempfile
    import h5py
    calls = []
    real = StokesSEM.stokes_one_step

    def spy(sem, us, ps, f, **kw):
      u, p, aux = real(sem, us, ps, f, **kw)
      datagen.jax.debug.callback(
          lambda us, ps, u, p: calls.append(
              [np.array(a) for a in (us[-1], ps[-1], u, p)]),
          us, ps, u, p, ordered=True)
      return u, p, aux
    with tempfile.TemporaryDirectory(prefix='c31') as d, patched(
        (StokesSEM, 'stokes_one_step', spy), (datagen, 'RESOLUTION', 2),
        (datagen, 'ORDER', 4), (datagen, 'NUM_CYCLES', 2),
        (datagen, 'NUM_STEPS_PER_CYCLE', 20), (datagen, 'DT', 1e-3),
        (datagen, 'FLAGS', types.SimpleNamespace(workdir=d))):
      datagen.run_simulation()
      files = {}
      for name in os.listdir(d):
        with h5py.File(os.path.join(d, name), 'r') as f:
          files[name] = {k: np.array(v) for k, v in f.items()}
    if len(files) != 2 or len(calls) != 40:
      return f'{len(files)} files, {len(calls)} steps'
    a, b = sorted(files.values(), key=lambda x: x['t'][0])
    for q, x in enumerate((a, b)):
      if set(x) != {'u', 'p', 't'}:
        return f'keys {sorted(x)}'
      if x['u'].dtype != np.float64 or x['p'].dtype != np.float64:
        return f'{x["u"].dtype} {x["p"].dtype} are written'
      if x['t'].shape != (3,) or np.abs(
          x['t'] - 1e-3 * (np.arange(3) * 10 + q * 20)).max() > 1e-12:
        return f'times {x["t"]}'
      for i in range(3):
        step = q * 20 + i * 10
        want = calls[step][:2] if step < 40 else calls[step - 1][2:]
        if not (np.array_equal(x['u'][i], want[0])
                and np.array_equal(x['p'][i], want[1])):
          return f'snapshot {i} of cycle {q} is not the state of step {step}'
    for s, t in zip(calls, calls[1:]):
      if not (np.array_equal(s[2], t[0]) and np.array_equal(s[3], t[1])):
        return 'a step does not continue from the one before'
    if not np.isfinite(b['u']).all() or np.abs(b['u'] - a['u'][0]).max() == 0:
      return 'nothing moves'
  h.smoke(one, 1)
  h.equal(lambda x: x, lambda x: x, [jsym.poly_vars('x', ())], tol=1e-12,
          label='-')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for k in (2, 3, 4):
    out.append((f'generation order {k} exact operators', cycle,
                dict(time_order=k, steps=2, start=0, heavy=True,
                     shape='one')))
    out.append((f'training order {k}', training,
                dict(time_order=k, shape='strip' if k < 4 else 'one')))
    out.append((f'generation order {k} long', cycle,
                dict(time_order=k, steps=21 if k == 3 else 10,
                     start=500 * (k - 2), heavy=False, shape='one')))
  out.append(('generation short', cycle,
              dict(time_order=3, steps=9, start=7, heavy=False,
                   shape='one')))
  for k, q, s in ((2, 3, 2), (3, 2, 4), (4, 4, 1), (3, 3, 10)):
    out.append((f'simulation order {k} {q} cycles of {s}', simulation,
                dict(time_order=k, cycles=q, steps=s)))
  out.append(('simulation real', generated, {}))
  if th:
    out.append(('simulation long', simulation,
                dict(time_order=3, cycles=2, steps=20)))
    out.append(('generation square', cycle,
                dict(time_order=3, steps=2, start=1, heavy=True,
                     shape='square')))
    out.append(('training square', training,
                dict(time_order=3, shape='square')))
    out.append(('generation three decades', cycle,
                dict(time_order=3, steps=41, start=20, heavy=False,
                     shape='strip')))
  return out
