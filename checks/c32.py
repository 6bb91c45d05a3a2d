"""C32: the rollout loss and its training step follow their definition."""
import inspect
import types

import numpy as np

from vlib import boot, jsym, query
from vlib.sym import Unsupported
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from checks.c16 import Case
from checks.c23 import grad_poly, names_of
from checks.c25 import patched
from checks.c31 import Shim, extrapolation, forcing, item, run
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
from swirl_fem.niles import train

PERM = np.array([2, 0, 3, 1])
DRAG, RE, DT, ALPHA = 0.25, 50.0, 0.125, 0.0625


def operators(n):
  """Cheap stand-ins for the mass, convection and Stokes operators."""
  w = np.linspace(0.5, 1.5, 2 * n).reshape(n, 2)
  b = lambda u: w * u
  c = lambda u: (2 - w) * u

  def step(us, ps, f):
    u = us[-1] * 0.5 + us[0] * 0.25 + f * (1 - 0.25 * w)
    return u, ps[-1] + 0.5 * ps[0]
  return b, c, step


def weights(n):
  """Fixed channel weights of the model stand-in."""
  return np.linspace(-1, 1, n)


SPREAD = {'z0_means': 2.0, 'z1_means': -3.0, 'z1_stds': 0.5}


def model(variables, x, rngs=None, z_rng=None, train=None):
  """A closure whose output depends on the position of the element."""
  p = variables['params']
  ch = weights(x.shape[2])
  out = p['w'][None, :, None] * x + p['v'][None, :, None] * ch
  aux = dict(kl_q0=p['q'] * x[:, 0, 0], kl_path=p['r'] * x[:, 1, 1] + 1,
             **{z: s * (1.25 - jnp.arange(x.shape[0]) * 2.0)
                for z, s in SPREAD.items()})
  if train is False:
    out = 2 * out
  return out, {k: v.astype(jnp.float32) for k, v in aux.items()}


def oracle_loss(c, k, steps, perm, u, params, penalty, frozen=None,
                pushforward=0, training=True):
  """The definition; u (batch, window, nodes, 2) object or float array.

  In the first `pushforward` steps the closure uses `frozen` parameters.
  """
  sem, n = c.sem, c.n
  b, conv, solve = operators(n)
  els = np.asarray(sem.velocity.mesh.elements)
  ne, nn = els.shape
  total, kl, mses = 0, 0, []
  batch = u.shape[0]
  err = [0] * steps
  for s in range(batch):
    us = [u[s, i] for i in range(k)]
    ps = [np.zeros(c.np)] * k
    cus = [conv(x) for x in us]
    for i in range(steps):
      # the parameters without gradient in pushforward steps
      p = frozen if (frozen is not None and i < pushforward) else params
      x = us[-1][els].reshape(ne, nn * 2)
      order = range(ne) if perm is None else perm
      force = np.zeros((ne, nn * 2), dtype=object)
      ch = weights(nn * 2)
      for pos, e in enumerate(order):
        force[e] = p['w'][pos] * x[e] + p['v'][pos] * ch
      if not training:
        force = 2 * force
      el = lambda pos: x[list(order)[pos]]
      kl = kl + (item(params['q']) * el(0)[0] + item(params['r']) * el(1)[1]
                 + 1)
      f = run(sem.velocity.scatter, force.reshape(ne, nn, 2))
      f = b(f + forcing(c.coords, us[-1], DRAG))
      for w, h in zip(extrapolation(k), cus):
        f = f - w * h
      new, pnew = solve(us, ps, f)
      us, ps, cus = us[1:] + [new], ps[1:] + [pnew], cus[1:] + [conv(new)]
      d = new - u[s, k + i]
      err[i] = err[i] + 0.5 * np.sum(d * d)
  mses = [e * (1 / batch) for e in err]
  kl = kl * (1 / batch)
  total = sum(mses) + item(penalty) * kl
  spread = np.abs(1.25 - np.arange(batch) * 2.0).mean()
  zs = [abs(s) * spread for s in SPREAD.values()]
  return total, np.array(mses, dtype=object), kl, zs


def config(k, steps, permute, push, ne, nch):
  return types.SimpleNamespace(
      time_order=k, num_steps=steps, eval_num_steps=steps,
      permute_elements=permute, num_pushforward_steps=push, num_elements=ne,
      num_channels=nch, reynolds_number=RE, dt=DT, drag_coeff=DRAG,
      alpha=ALPHA, num_nodes=25)


NOTE = ('four elements of velocity order 2 with a permutation that is not its '
        'own inverse, batches of 1-2 windows, time orders 2-3, 1-3 steps, 0-3 '
        'pushforward steps; all snapshot values in [-1, 1] at the listed '
        'nodes (a few at a time, fixed values at the others), all model '
        'parameters and penalties in [-1, 1]')


def loss(h, *, k, steps, batch, permute, push, nodes, training=True,
         gradient=False, fixed_w=False):
  h.func('train.compute_mse_loss', 'train._solve_one_step')
  h.bound(NOTE)
  h.assume('the Stokes solver, mass and convection operators and the model '
           'are replaced by simple functions; spectra are not examined')
  c = Case('square', 2, (0, 1), 'none')
  sem, n = c.sem, c.n
  ne, nn = np.asarray(sem.velocity.mesh.elements).shape
  b, conv, solve = operators(n)
  cfg = config(k, steps, permute, push, ne, nn * 2)
  window = k + steps + 1            # one snapshot more than needed
  base = np.random.default_rng(3).uniform(-1, 1, size=(batch, window, n, 2))

  def fill(u):
    """Snapshots with symbols at the chosen nodes."""
    if isinstance(u, np.ndarray):
      out = base.astype(object) if u.dtype == object else np.array(base)
      out[:, :, nodes] = u
      return out
    return jnp.asarray(base).at[:, :, np.asarray(nodes)].set(u)

  def stokes(self, us, ps, f, *a, **kw):
    u, p = solve(us, ps, f)
    return u, p, {}

  def value(u, params, penalty):
    key = jax.random.PRNGKey(1)
    full = fill(u)
    bt = {'u': full, 'p': jnp.zeros((batch, window, c.np)),
          't': jnp.zeros((batch, window))}
    ones = lambda *a, **kw: jnp.ones(())
    with patched((StokesSEM, 'stokes_one_step', stokes),
                 (StokesSEM, 'B', lambda s, x: b(x)),
                 (StokesSEM, 'C', lambda s, x: conv(x)),
                 (train, 'make_multiscale_perm', lambda *a, **kw: PERM),
                 (train, 'get_tke', lambda *a, **kw: jnp.ones((2, 2))),
                 (train, 'get_energy_spectrum',
                  lambda *a, **kw: (jnp.ones(3), jnp.ones(3)))):
      return train.compute_mse_loss(
          bt, params, model, key, penalty, sem, None, None, cfg, training)

  def f(u, params, penalty):
    if gradient:
      return jax.grad(lambda q: value(u, q, penalty)[0])(params)
    l, aux = value(u, params, penalty)
    return (l, aux['mse'], aux['kl'], aux['kl_q0'] + aux['kl_path']) + tuple(
        aux[z] for z in SPREAD)

  perm = PERM if permute else None

  def oracle(u, params, penalty):
    if not gradient:
      l, m, kl, zs = oracle_loss(c, k, steps, perm, fill(u), params, penalty,
                                 training=training)
      return tuple(np.asarray(x) for x in (
          l, m, item(penalty) * kl, kl, zs[0], zs[1], zs[2]))
    if params['w'].dtype != object:
      return differentiate(u, params, penalty)
    fr = {x: jsym.poly_vars('z' + x, v.shape) for x, v in params.items()}
    l = oracle_loss(c, k, steps, perm, fill(u), params, penalty, fr, push)[0]
    out = {}
    for x, v in params.items():
      g = grad_poly(l, names_of(v))
      out[x] = np.array([thaw(e, fr, params) for e in g],
                        dtype=object).reshape(v.shape)
    return out

  def differentiate(u, params, penalty):
    """Central differences, exact for these low degrees up to rounding."""
    out = {}
    for x, v in params.items():
      g = np.zeros(v.shape)
      for i in np.ndindex(*v.shape):
        d = []
        for e in (1e-4, -1e-4):
          q = {y: np.array(w, dtype=np.float64) for y, w in params.items()}
          q[x][i] += e
          d.append(oracle_loss(c, k, steps, perm, fill(u), q, penalty, params,
                               push)[0])
        g[i] = (d[0] - d[1]) / 2e-4
      out[x] = g
    return out

  v = jsym.poly_vars
  params = {'w': v('w', (ne,)), 'v': v('v', (ne,)), 'q': v('q', ()),
            'r': v('r', ())}
  h.equal(f, oracle, (v('u', (batch, window, len(nodes), 2)), params,
                      v('pen', ())),
          tol=1e-6, run_tol=1e-4, label='gradient' if gradient
          else 'loss, errors per step, divergences')


def thaw(e, frozen, params):
  """Frozen copies become the parameters themselves."""
  from vlib.sym import Poly
  if not isinstance(e, Poly):
    return e
  back = {}
  for x, v in frozen.items():
    for a, b in zip(v.flat, params[x].flat):
      back[next(iter(a.vars()))] = next(iter(b.vars()))
  t = {}
  for m, cf in e.t.items():
    key = tuple(sorted(back.get(i, i) for i in m))
    t[key] = t.get(key, 0) + cf
  q = Poly({m: cf for m, cf in t.items() if cf != 0})
  return q.cval() if q.is_const() else q


def keys(h, *, steps, training):
  """No two steps of a rollout, and no two kinds, share a random key."""
  h.func('train.compute_mse_loss')
  c = Case('square', 2, (0, 1), 'none')
  n = c.n
  ne, nn = np.asarray(c.sem.velocity.mesh.elements).shape
  b, conv, solve = operators(n)
  cfg = config(2, steps, True, 1, ne, nn * 2)

  def rollout(seed):
    seen = []

    def closure(variables, x, rngs=None, z_rng=None, train=None):
      ks = {'z': z_rng, **(rngs or {})}
      jax.debug.callback(
          lambda q: seen.append({x: tuple(np.asarray(v).ravel().tolist())
                                 for x, v in q.items()}), ks)
      return model(variables, x, train=train)

    def stokes(self, us, ps, f, *a, **kw):
      u, p = solve(us, ps, f)
      return u, p, {}
    full = jnp.asarray(np.random.default_rng(3).uniform(
        -1, 1, size=(1, steps + 2, n, 2)))
    bt = {'u': full, 'p': jnp.zeros((1, steps + 2, c.np)),
          't': jnp.zeros((1, steps + 2))}
    params = {'w': jnp.ones(ne), 'v': jnp.ones(ne), 'q': jnp.ones(()),
              'r': jnp.ones(())}
    with patched((StokesSEM, 'stokes_one_step', stokes),
                 (StokesSEM, 'B', lambda s, x: b(x)),
                 (StokesSEM, 'C', lambda s, x: conv(x)),
                 (train, 'make_multiscale_perm', lambda *a, **kw: PERM),
                 (train, 'get_tke', lambda *a, **kw: jnp.ones((2, 2))),
                 (train, 'get_energy_spectrum',
                  lambda *a, **kw: (jnp.ones(3), jnp.ones(3)))):
      l, _ = train.compute_mse_loss(
          bt, params, closure, jax.random.PRNGKey(seed), 0.5, c.sem, None,
          None, cfg, training)
      jax.block_until_ready(l)
    jax.effects_barrier()
    return [v for step in seen for v in step.values()], len(seen)

  def check():
    used, calls = rollout(1)
    again, _ = rollout(1)
    other, _ = rollout(2)
    if calls != steps:
      return f'the closure ran {calls} times in {steps} steps', {}
    if sorted(used) != sorted(again):
      return 'the same key gives other draws', {}
    if set(used) & set(other):
      return 'different keys give the same draws', {}
    if len(set(used)) < len(used):
      return f'{len(used)} draws by {len(set(used))} keys', {}
    return None, {}
  h.smoke(check, times=1)
  query.solve([False])


# Training and evaluation steps ------------------------------------------------

class State:
  """A training state that shows the gradient it is given."""

  def __init__(self, step, params):
    self.step, self.params, self.apply_fn = step, params, model

  def apply_gradients(self, *, grads):
    return grads


def aux_of(key, batch, params, penalty):
  """What the stand-in for the loss reports."""
  u, m = batch['u'], batch['m']
  mse = m * params['w'][0]
  return dict(kl_q0=u[0], kl_path=2 * u[1], mse=mse, kl=penalty * u[2],
              z0_means=key[1] * 1.0 + u[0], z1_means=3 * u[1], z1_stds=u[2],
              tke_err=u[0] + u[1])


def loss_of(batch, params, penalty):
  u, w = batch['u'], params['w']
  return (w[0] * w[0] * u[0] + w[1] * u[1] * u[1] + w[0] * w[1] * u[2]
          + penalty * w[1] * u[0])


def steps(h, *, lanes, step, training, T):
  h.func('train.train_step', 'train.eval_step', 'train.compute_metrics')
  h.bound('training and evaluation steps on 1-4 devices at several step '
          'numbers, losses of degree 4, errors of 1-130 steps; all parameters, '
          'batches and penalties in [-1, 1]')
  cfg = types.SimpleNamespace()
  keys = np.asarray(jax.random.split(jax.random.PRNGKey(5), lanes))

  named = inspect.signature(train.compute_mse_loss)

  def fake(*args, **kwargs):
    a = named.bind(*args, **kwargs).arguments
    try:
      batch, params, pen = a['batch'], a['params'], a['kl_penalty']
      key = a['step_rng'].astype(jnp.float64) * 2.0 ** -32
      if a['train'] is not training or a['model_apply_fn'] is not model:
        raise ValueError('wrong mode or model')
    except KeyError as e:
      raise Unsupported(f'the loss takes other arguments: {e}') from e
    return loss_of(batch, params, pen), aux_of(key, batch, params, pen)

  def f(params, u, m, key, lr, pen):
    st = State(step, {'w': params})
    bt = {'u': u, 'm': m}
    with patched((train, 'compute_mse_loss', fake)):
      if training:
        g, met = train.train_step(
            st, bt, lambda s: lr * (1.0 + s), lambda s: pen * (2.0 + s), None,
            key, cfg)
        return g['w'], met
      return train.eval_step(st, bt, lambda s: pen * (2.0 + s), None, None,
                             None, key, cfg)

  def lane(params, u, m, key, lr, pen, i):
    pen = item(pen) * (2.0 + step)
    kf = np.asarray(jax.random.fold_in(jnp.asarray(
        np.asarray(key[i]).astype(np.uint32)), step)).astype(float) / 2.0**32
    bt, pr = {'u': u[i], 'm': m[i]}, {'w': params}
    aux = aux_of(kf, bt, pr, pen)
    met = {x: aux[x] for x in ('kl_q0', 'kl_path', 'kl', 'z0_means',
                               'z1_means', 'z1_stds')}
    met['loss'] = loss_of(bt, pr, pen)
    ms = list(aux['mse'])
    met['mse'] = sum(ms) * (1 / T)
    if training:
      w, x = params, u[i]
      met['grad'] = np.array(
          [2 * w[0] * x[0] + w[1] * x[2],
           x[1] * x[1] + w[0] * x[2] + pen * x[0]])
    else:
      met['tke_err'] = aux['tke_err']
      met['mse@1to8'] = sum(ms[:8]) * (1 / min(T, 8))
      for j in (8, 16, 32, 64, 128):
        if j <= T:                 # (there is no error of a step not taken)
          met[f'mse@{j}'] = ms[j - 1]
    return met

  def oracle(params, u, m, key, lr, pen):
    per = [lane(params[0], u, m, key, lr[0], pen[0], i) for i in range(lanes)]
    mean = {x: sum(p[x] for p in per) * (1 / lanes) for x in per[0]}
    g = mean.pop('grad', None)
    met = {x: np.asarray(v) for x, v in mean.items()}
    if training:
      met['learning_rate'] = np.asarray(item(lr[0]) * (1.0 + step))
      met['kl_penalty'] = np.asarray(item(pen[0]) * (2.0 + step))
    met = {x: np.stack([v] * lanes) for x, v in met.items()}
    return (np.stack([g] * lanes), met) if training else met

  def same(x):
    return np.stack([x] * lanes)

  def call(fn, *a, hooks=None):
    return jsym.call_lanes(fn, 'batch', lanes, a, hooks=hooks)

  def real(*a):
    return jax.vmap(f, axis_name='batch')(*a)
  v = jsym.poly_vars
  h.equal(f, oracle, (same(v('w', (2,))), v('u', (lanes, 3)),
                      v('m', (lanes, T)), keys, same(v('lr', ())),
                      same(v('pen', ()))), tol=1e-6, call=call, real=real,
          label='gradients and metrics')


def shipped(h, *, training):
  """The shipped configuration, model, loss and step fit together.

  The real step is traced with the real model and solver for the shapes; the
  solver decides a step as above.
  """
  from swirl_fem.niles.config import niles
  import ml_collections
  import optax
  from flax.training.train_state import TrainState

  def trace():
    c = ml_collections.FrozenConfigDict(niles.get_config())
    mod = train.create_model(c.model_name, c.model)
    rate = train.create_learning_rate_fn(c, 1e-3, 10)
    penalty = train.create_kl_penalty_fn(c, 10)
    pre = lambda: unit_cube_mesh(c.element_grid_size, periodic_dims=(0, 1))
    sem = StokesSEM.create(pre(), boundary_conditions={}, order=c.order)
    even = refine_premesh(pre(), gridpoints_1d=Nodes1D.create(
        num_points=c.order + 1, node_type=NodeType.NEWTON_COTES)).finalize()
    n, m = sem.velocity.mesh.num_nodes, sem.pressure.pspace.mesh.num_nodes
    params = jax.eval_shape(
        lambda k: train.initialized(k, c.num_elements, c.num_channels, mod),
        jax.random.PRNGKey(0))
    w = ((c.num_steps if training else c.eval_num_steps) + c.time_order)
    spec = lambda *s: jax.ShapeDtypeStruct((1, 1, w) + s, jnp.float64)
    batch = dict(u=spec(n, 2), p=spec(m), t=spec())

    def step(p, b, key):
      st = TrainState.create(apply_fn=mod.apply, params=p, tx=optax.sgd(0.1))
      if training:
        st, met = train.train_step(st, b, rate, penalty, sem, key, c)
        return st.params, met
      return train.eval_step(st, b, penalty, sem, even, np.arange(n), key, c)
    out = jax.eval_shape(jax.vmap(step, in_axes=(None, 0, 0), axis_name='batch'),
                         params, batch, jax.ShapeDtypeStruct((1, 2), jnp.uint32))
    met = out[1] if training else out
    if not training:
      want = {'loss', 'mse', 'tke_err', 'mse@8', 'mse@16', 'mse@32', 'mse@64'}
      if not want <= set(met) or 'mse@128' in met:
        return f'metrics {sorted(met)}', {}
    return None, {}
  h.smoke(trace)
  steps(h, lanes=1, step=4, training=training, T=20)


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(**kw):
    out.append((' '.join(f'{k}={v}' for k, v in kw.items()), loss, kw))
  groups = [list(range(i, 25, 5)) for i in range(5)]
  for i, nodes in enumerate(groups):
    add(k=2, steps=2, batch=2, permute=True, push=0, nodes=nodes)
    add(k=3, steps=1 + i % 3, batch=1, permute=i != 1, push=1, nodes=nodes)
  add(k=3, steps=2, batch=2, permute=True, push=0, nodes=[1, 10],
      training=False)
  for push in (0, 1, 2):
    add(k=2, steps=2, batch=1, permute=True, push=push, nodes=[2, 12],
        gradient=True)
  add(k=2, steps=3, batch=1, permute=True, push=1, nodes=[12], gradient=True)
  for lanes, step in ((1, 0), (2, 7), (4, 1000)):
    for t in (True, False):
      out.append((f'{"training" if t else "evaluation"} step {step} on {lanes}',
                  steps, dict(lanes=lanes, step=step, training=t, T=130)))
  for n in (1, 2, 7):
    for t in (True, False):
      out.append((f'keys of {n} {"training" if t else "evaluation"} steps',
                  keys, dict(steps=n, training=t)))
  for n in (1, 5, 8, 15, 64, 125):
    out.append((f'evaluation of {n} steps', steps,
                dict(lanes=2, step=3, training=False, T=n)))
  for t in (True, False):
    out.append((f'shipped {"training" if t else "evaluation"}', shipped,
                dict(training=t)))
  if th:
    for i in range(0, 25, 3):
      add(k=2, steps=3, batch=1, permute=True, push=0, nodes=[i, (i + 7) % 25])
      add(k=3, steps=2, batch=2, permute=True, push=2,
          nodes=[i, (i + 11) % 25], gradient=True)
  return out
