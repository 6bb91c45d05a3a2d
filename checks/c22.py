"""C22: the SDE solver computes the Euler-Heun recursion on every segment."""
import numpy as np

from vlib import boot, jsym, sym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import Rand, compare, concretise
from vlib.query import Under
from vlib.sym import Poly
from swirl_fem.sde import sdeint as sd

# name: (state shapes, noise shape, drift/diffusion over (state, t, dw, args))


def scalar_model(y, t, dw, a):
  """Scalar state; drift and diffusion depend on state, time and arguments."""
  return a[0] + a[1] * y + a[2] * t, (a[3] + a[4] * y + a[5] * t) * dw


def quadratic_model(y, t, dw, a):
  return a[0] * y * y + t, a[1] * y * dw * t


def vector_model(y, t, dw, a):
  """Two components with different noise, coupled."""
  m = dw
  return (a[0:2] * y[::-1] + a[2:4] * t, y * m[0] + y[::-1] * m[1] * a[4])


def tree_model(y, t, dw, a):
  """A nested state with a scalar and a vector leaf."""
  p, q = y['p'], y['q']
  return ({'p': a[0] * p + q[0] * t, 'q': a[1] * q},
          {'p': a[2] * p * dw, 'q': (q + p) * dw * a[3]})


MODELS = {
    'scalar': (scalar_model, (), (), 6),
    'quadratic': (quadratic_model, (), (), 2),
    'vector': (vector_model, (2,), (2,), 5),
    'tree': (tree_model, {'p': (), 'q': (2,)}, (), 4),
}


def tmap(f, *ts):
  return jax.tree_util.tree_map(f, *ts)


def euler_heun(model, y, t0, t1, dws, a):
  """Oracle: one segment."""
  n = len(dws)
  dt = (t1 - t0) * (1.0 / n)
  t = t0
  for w in dws:
    w = w if np.ndim(w) else np.asarray(w)[()]
    mu, s = model(y, t, w, a)
    yh = tmap(lambda u, v: u + v, y, s)
    _, sh = model(yh, t + dt, w, a)
    y = tmap(lambda u, m, s, sh: u + m * dt + (s + sh) * 0.5, y, mu, s, sh)
    t = t + dt
  return y


def oracle(model, y, ts, dw, a):
  k = len(ts) - 1
  n = len(dw) // k
  outs = []
  for i in range(k):
    y = euler_heun(model, y, ts[i], ts[i + 1], dw[i * n:(i + 1) * n], a)
    outs.append(y)
  return tmap(lambda *v: np.stack([jsym.to_obj(np.asarray(x, dtype=object))
                                   for x in v]), *outs)


def make(name, shape):
  if isinstance(shape, dict):
    return {k: make(f'{name}.{k}', s) for k, s in shape.items()}
  return jsym.poly_vars(name, shape)


def run_solver(model, as_list=False):
  def g(y0, ts, dw, a):
    return sd.sdeint(model, y0, ts, dw, a)
  return g


def increasing(ts):
  """The output times increase, as linear constraints."""
  out = [sym.as_real(ts[0]) >= 0, sym.as_real(ts[-1]) <= 1]
  for i in range(len(ts) - 1):
    out.append(sym.as_real(ts[i + 1]) >= sym.as_real(ts[i]) + sym.rat(1e-3))
  return out


def recursion(h, *, model, segments, steps, extra):
  h.func('sdeint.sdeint', 'sdeint._sdeint_wrapper', 'sdeint._sdeint',
         'sdeint.ravel_first_arg')
  h.bound('up to 3 segments and 4 steps in all; polynomial drift and diffusion '
          '(affine, quadratic, coupled, nested states) with symbolic '
          'coefficients in [-1, 1], increments in [-1, 1], increasing times in '
          '[0, 1]')
  h.assume('real arithmetic, tolerance 1e-7; output times in [0, 1] increase by at '
           'least 1e-3')
  f, yshape, wshape, na = MODELS[model]
  y0 = make('y', yshape)
  a = jsym.poly_vars('a', (na,))
  ts = jsym.poly_vars('t', (segments + 1,))
  dw = jsym.poly_vars('w', (segments * steps,) + wshape)
  times = increasing(ts)
  hooks = {'prune': Under(times)}
  h.witness(times)

  if extra == 'closure':
    # coefficients captured by the function instead of passed
    def g(y0, ts, dw, a):
      return sd.sdeint(lambda y, t, w: f(y, t, w, a), y0, ts, dw)
  elif extra == 'split':
    def g(y0, ts, dw, a):
      k = na // 2
      def ff(y, t, w, a1, a2):
        return f(y, t, w, jnp.concatenate([a1, a2['x']]))
      return sd.sdeint(ff, y0, ts, dw, a[:k], {'x': a[k:]})
  else:
    def g(y0, ts, dw, a):
      return sd.sdeint(f, y0, ts, dw, a)

  def run(env):
    tv = np.sort(np.array([env.get(f't[{i}]', 0.0)
                           for i in range(segments + 1)]))
    if len(set(np.abs(tv).tolist())) < len(tv) or np.min(np.diff(tv)) < 1e-3:
      tv = np.linspace(tv[0], tv[0] + 1, segments + 1)
    yv = tmap(lambda x: concretise(x, env), y0)
    wv, av = concretise(dw, env), concretise(a, env)
    got = g(tmap(jnp.asarray, yv), jnp.asarray(tv), jnp.asarray(wv),
            jnp.asarray(av))
    want = oracle(f, yv, tv, wv, av)
    gs, ws = (jax.tree_util.tree_structure(x) for x in (got, want))
    if gs != ws:
      return f'result structure {gs} instead of {ws}'
    d = compare([np.asarray(v) for v in jax.tree_util.tree_leaves(got)],
                [np.asarray(v, dtype=np.float64)
                 for v in jax.tree_util.tree_leaves(want)], 1e-6)
    if d is None and segments > 1:
      # piecewise integration gives the same states
      y, k = tmap(jnp.asarray, yv), steps
      for i in range(segments):
        y = tmap(lambda x: x[-1], g(y, jnp.asarray(tv[i:i + 2]),
                                    jnp.asarray(wv[i * k:(i + 1) * k]),
                                    jnp.asarray(av)))
      d = compare([np.asarray(v) for v in jax.tree_util.tree_leaves(y)],
                  [np.asarray(v[-1], dtype=np.float64)
                   for v in jax.tree_util.tree_leaves(got)], 1e-6)
      d = d and 'piecewise: ' + d
    return d

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(
      Rand(h.nprng, {'t': (0.0, 1.0)}, 1.0)))
  got = jsym.call(g, y0, ts, dw, a, hooks=hooks)
  want = oracle(f, y0, ts, dw, a)
  if (jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(want)):
    h._replay(run, {}, 'result structure')
  h.close(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want), run,
          tol=1e-7, box={'t': (0.0, 1.0)}, extra=times,
          label=f'{model}, {segments} segments of {steps} steps')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for model, sizes in {
      'scalar': [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)] + (
          [(1, 4), (4, 1), (2, 3), (3, 2)] if th else []),
      'quadratic': [(1, 1), (1, 2), (2, 1)],
      'vector': [(1, 1), (1, 2), (2, 1), (3, 1)] + (
          [(2, 2), (1, 3)] if th else []),
      'tree': [(1, 1), (1, 2), (2, 1)] + ([(2, 2), (1, 3)] if th else []),
  }.items():
    for s, n in sizes:
      for extra in ('args', 'closure', 'split'):
        if extra != 'args' and s * n > 2:
          continue
        out.append((f'{model} {s}x{n} {extra}', recursion,
                    dict(model=model, segments=s, steps=n, extra=extra)))
  return out
