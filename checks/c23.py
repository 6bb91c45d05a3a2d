"""C23: adjoint SDE gradients are exact where the scheme allows it."""
import numpy as np

from vlib import boot, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from checks.c22 import euler_heun, increasing, make, tmap
from vlib.harness import Rand, compare, concretise
from vlib.query import Under
from vlib.sym import Poly, poly_of
from swirl_fem.sde import sdeint as sd


# Models with an exact adjoint. Linear ones are differentiated with respect to
# the state, state-independent ones with respect to their parameters.


def linear_scalar(y, t, dw, a):
  return a[0] * y, a[1] * y * dw


def linear_pair(y, t, dw, a):
  """A full 2x2 drift matrix and diffusion matrix, which do not commute."""
  d = jnp.stack if not isinstance(y, np.ndarray) else np.stack
  mu = d([a[0] * y[0] + a[1] * y[1], a[2] * y[0] + a[3] * y[1]])
  s = d([a[4] * y[0] + a[5] * y[1], a[6] * y[0] - a[4] * y[1]])
  return mu, s * dw


def linear_tree(y, t, dw, a):
  return ({'p': a[0] * y['q'], 'q': a[1] * y['p']},
          {'p': a[2] * y['p'] * dw[0], 'q': y['q'] * dw[1] * a[3]})


def constant_scalar(y, t, dw, a):
  return a[0] * a[1] + 0 * y, (a[1] + a[0] * a[0]) * dw + 0 * y


def constant_pair(y, t, dw, a):
  return a[0:2] * a[1:3] + 0 * y, a[0] * a[1:3] * dw + 0 * y


LINEAR = {'scalar': (linear_scalar, (), (), 2),
          'pair': (linear_pair, (2,), (), 7),
          'tree': (linear_tree, {'p': (), 'q': ()}, (2,), 4)}
CONSTANT = {'scalar': (constant_scalar, (), (), 2),
            'pair': (constant_pair, (2,), (), 3)}


def grad_poly(e, names):
  """Exact derivatives of a polynomial."""
  out = []
  p = poly_of(e)
  for n in names:
    i = Poly.ids[n]
    t = {}
    for m, c in p.t.items():
      k = m.count(i)
      if k:
        l = list(m)
        l.remove(i)
        t[tuple(l)] = t.get(tuple(l), 0) + c * k
    q = Poly(t)
    out.append(q.cval() if q.is_const() else q)
  return out


def names_of(arr):
  return [Poly.names[e.vars()[0] if isinstance(e.vars(), list)
                     else next(iter(e.vars()))] for e in arr.flat]


def solve_all(model, y, ts, dw, a):
  """Oracle final states at every output time."""
  k = len(ts) - 1
  n = len(dw) // k
  outs = []
  for i in range(k):
    y = euler_heun(model, y, ts[i], ts[i + 1], dw[i * n:(i + 1) * n], a)
    outs.append(y)
  return outs


def flat(x):
  return [np.asarray(v, dtype=object) for v in jax.tree_util.tree_leaves(x)]


def exact(h, *, kind, model, segments, steps, closure=False):
  h.func('sdeint._sdeint_fwd', 'sdeint._sdeint_rev', 'sdeint._sdeint_wrapper')
  h.bound('up to 3 segments, 3 steps in all; states of 1-2 components; symbolic '
          'coefficients, increments, states and cotangents in [-1, 1]')
  h.assume('real arithmetic, tolerance 1e-7; output times in [0, 1] increase by '
           'at least 1e-3')
  f, yshape, wshape, na = (LINEAR if kind == 'linear' else CONSTANT)[model]
  y0 = make('y', yshape)
  a = jsym.poly_vars('a', (na,))
  ts = jsym.poly_vars('t', (segments + 1,))
  dw = jsym.poly_vars('w', (segments * steps,) + wshape)
  wrt = y0 if kind == 'linear' else a
  # distinct cotangent names per leaf
  leaves, tree = jax.tree_util.tree_flatten(y0)
  ct = jax.tree_util.tree_unflatten(tree, [
      jsym.poly_vars(f'c{k}', (segments,) + x.shape)
      for k, x in enumerate(leaves)])
  hooks = {'prune': Under(increasing(ts))}

  index = jnp.arange(na)[::-1]

  def g(y0, ts, dw, a, ct):
    if closure == 'integer':
      # arguments without derivatives, between others
      solver = lambda y, p: sd.sdeint(
          lambda y, t, w, i, p, b: f(y, t, w, jnp.where(b, p[i['i']], 0)), y, ts, dw,
          {'i': index}, p[::-1], jnp.array(True))
      fun, x = ((lambda y: solver(y, a), y0) if kind == 'linear' else
                (lambda p: solver(y0, p), a))
    elif closure == 'shapes':
      # nested arguments of every rank, one of them unused, one empty
      def model(y, t, w, tree, i, more):
        p = jnp.concatenate([tree['s'][None], tree['m']['x'].reshape(-1),
                             more[0].reshape(-1)])
        return f(y, t, w, p)

      def solver(y, p):
        k = na // 2
        return sd.sdeint(
            model, y, ts, dw,
            {'s': p[0], 'm': {'x': p[1:k + 1].reshape((1, k, 1)),
                              'unused': jnp.ones((2, 1))}, 'none': None},
            7, (p[k + 1:].reshape((1, 1, -1, 1)), jnp.zeros((0, 3))))
      fun, x = ((lambda y: solver(y, a), y0) if kind == 'linear' else
                (lambda p: solver(y0, p), a))
    elif kind == 'linear':
      fun = lambda y: sd.sdeint(f, y, ts, dw, a)
      x = y0
    elif closure:
      fun = lambda p: sd.sdeint(lambda y, t, w: f(y, t, w, p), y0, ts, dw)
      x = a
    else:
      fun = lambda p: sd.sdeint(f, y0, ts, dw, p)
      x = a
    return jax.vjp(fun, x)[1](ct)[0]

  def oracle_grad(y0, ts, dw, a, ct):
    """Exact gradient of the pairing, by differentiating polynomials."""
    total = 0
    for i, y in enumerate(solve_all(f, y0, ts, dw, a)):
      for u, c in zip(flat(y), flat(ct)):
        for k in np.ndindex(*u.shape):
          total = u[k] * c[(i,) + k] + total
    return tmap(lambda v: np.array(grad_poly(total, names_of(v)),
                                   dtype=object).reshape(v.shape), wrt)

  def finite(yv, tv, wv, av, cv):
    """Gradient of the oracle recursion by complex steps on concrete data."""
    base = av if kind != 'linear' else yv
    bl, bt = jax.tree_util.tree_flatten(base)
    outs = []
    for l, x in enumerate(bl):
      g = np.zeros(np.shape(x))
      for k in np.ndindex(*np.shape(x)):
        pert = [np.array(v, dtype=complex) for v in bl]
        pert[l][k] += 1e-30j
        pb = jax.tree_util.tree_unflatten(bt, pert)
        ys = solve_all(f, *((pb, tv, wv, av) if kind == 'linear' else
                            (tmap(lambda v: np.asarray(v, complex), yv), tv, wv,
                             pb)))
        s = 0
        for i, y in enumerate(ys):
          for u, c in zip(jax.tree_util.tree_leaves(y),
                          jax.tree_util.tree_leaves(cv)):
            s += np.sum(np.asarray(u) * np.asarray(c)[i])
        g[k] = s.imag * 1e30
      outs.append(g)
    return outs

  def run(env):
    tv = np.sort(np.array([env.get(f't[{i}]', 0.0)
                           for i in range(segments + 1)]))
    if np.min(np.diff(tv)) < 1e-3:
      tv = np.linspace(0, 1, segments + 1)
    cc = lambda tree: tmap(lambda x: concretise(x, env), tree)
    yv, wv, av, cv = cc(y0), cc(dw), cc(a), cc(ct)
    got = g(tmap(jnp.asarray, yv), jnp.asarray(tv), jnp.asarray(wv),
            jnp.asarray(av), tmap(jnp.asarray, cv))
    return compare([np.asarray(v) for v in jax.tree_util.tree_leaves(got)],
                   finite(yv, tv, wv, av, cv), 1e-6)

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(
      Rand(h.nprng, {'t': (0.0, 1.0)}, 1.0)))
  got = jsym.call(g, y0, ts, dw, a, ct, hooks=hooks)
  want = oracle_grad(y0, ts, dw, a, ct)
  h.close(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want), run,
          tol=1e-7, box={'t': (0.0, 1.0)}, extra=increasing(ts),
          label=f'{kind} {model}, {segments} segments of {steps} steps')


# One step of a general smooth model -------------------------------------------


def general_scalar(y, t, dw, a):
  return (a[0] + a[1] * y + a[2] * y * y + a[3] * t * y,
          (a[4] + a[5] * y + a[6] * y * y + a[7] * t) * dw)


def general_pair(y, t, dw, a):
  d = jnp.stack if not isinstance(y, np.ndarray) else np.stack
  mu = d([a[0] * y[1] * y[0] + a[1] * t, a[2] * y[0] * y[0] + a[1] * y[1]])
  # a single noise source, so the Stratonovich scheme is of strong order one
  s = d([a[3] * y[0] * y[1] + a[4], a[5] * y[0] + a[3] * y[1] * y[1]])
  return mu, s * dw


GENERAL = {'scalar': (general_scalar, (), 8), 'pair': (general_pair, (2,), 6)}


def low_order(e, dt, w):
  """Terms of order at most one, with weights one for dt and 1/2 for w."""
  p = poly_of(e)
  return Poly({m: c for m, c in p.t.items()
               if m.count(dt) + 0.5 * m.count(w) <= 1})


def one_step(h, *, model, wrt):
  h.bound('one step of general polynomial models of degree two')
  f, yshape, na = GENERAL[model]
  y0, a = make('y', yshape), jsym.poly_vars('a', (na,))
  t0, dt = Poly.var('t0'), Poly.var('dt')
  ts = np.array([t0, t0 + dt], dtype=object)
  dw = jsym.poly_vars('w', (1,))
  ct = jsym.poly_vars('c', (1,) + yshape)
  from vlib import sym
  hooks = {'prune': Under([sym.as_real(dt) >= sym.rat(1e-3)])}
  x = y0 if wrt == 'state' else a

  def g(y0, ts, dw, a, ct):
    if wrt == 'state':
      return jax.vjp(lambda y: sd.sdeint(f, y, ts, dw, a), y0)[1](ct)[0]
    return jax.vjp(lambda p: sd.sdeint(f, y0, ts, dw, p), a)[1](ct)[0]

  def truth(y0, t0, t1, dw, a, ct):
    y = euler_heun(f, y0, t0, t1, dw, a)
    total = 0
    for u, c in zip(np.asarray(y, dtype=object).flat, ct.flat):
      total = u * c + total
    return total

  def run(env, scales=(1e-2, 1e-4)):
    """The error shrinks faster than the step on the real code."""
    cc = lambda v: concretise(v, env)
    yv, av, cv = cc(y0), cc(a), cc(ct)
    w, d, t = env.get('w[0]', 0.7), abs(env.get('dt', 0.6)), env.get('t0', 0.2)
    errs = []
    for s in scales:
      wv, tv = np.array([w * s ** 0.5]), np.array([t, t + (d or .5) * s])
      got = g(jnp.asarray(yv), jnp.asarray(tv), jnp.asarray(wv),
              jnp.asarray(av), jnp.asarray(cv))
      base = np.asarray(yv if wrt == 'state' else av, dtype=complex)
      want = np.zeros(base.shape)
      for k in np.ndindex(*base.shape):
        b = base.copy()
        b[k] += 1e-30j
        args = (b, tv[0], tv[1], wv, av) if wrt == 'state' else (
            np.asarray(yv, complex), tv[0], tv[1], wv, b)
        want[k] = np.sum(np.asarray(euler_heun(f, *args)).reshape(-1)
                         * cv.reshape(-1)).imag * 1e30
      errs.append(np.abs(np.asarray(got) - want).max() / s)
    # the error per unit step behaves like the square root of the step
    if errs[1] > 1e-7 and errs[1] > 0.5 * errs[0]:
      return (f'one-step gradient error over step {scales}: {errs} '
              'does not vanish')
    return None

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(
      Rand(h.nprng, {'t0': (0.0, 0.9)}, 1.0)))
  got = jsym.call(g, y0, ts, dw, a, ct, hooks=hooks)
  total = truth(y0, t0, t0 + dt, dw, a, ct)
  want = grad_poly(total, names_of(np.asarray(x, dtype=object)))
  i, j = Poly.ids['dt'], Poly.ids['w[0]']
  lo = np.empty(len(want), dtype=object)
  for k, (u, v) in enumerate(zip(jsym.to_obj(got).flat, want)):
    lo[k] = low_order(poly_of(u) - v, i, j)
  h.close([lo], [np.zeros(len(want))], run, tol=1e-7,
          label=f'{model} wrt {wrt}: error terms of order up to one')
  # reachability: the expansion does have terms of order one to compare
  n = sum(len(low_order(v, i, j).t) for v in want)
  if not n:
    raise AssertionError('nothing to compare')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  sizes = [(1, 1), (1, 2), (2, 1)]
  for m in LINEAR:
    for s, n in sizes + ([(1, 3), (3, 1)] if th or m == 'scalar' else []):
      out.append((f'linear {m} {s}x{n}', exact,
                  dict(kind='linear', model=m, segments=s, steps=n)))
    out.append((f'linear {m} integer arguments', exact,
                dict(kind='linear', model=m, segments=2, steps=1,
                     closure='integer')))
    out.append((f'linear {m} nested arguments', exact,
                dict(kind='linear', model=m, segments=2, steps=1,
                     closure='shapes')))
  for m in CONSTANT:
    for s, n in sizes + [(1, 3), (3, 1), (2, 2)]:
      for c in (False, True) + (('integer', 'shapes') if s * n < 3 else ()):
        out.append((f'constant {m} {s}x{n} closure={c}', exact,
                    dict(kind='constant', model=m, segments=s, steps=n,
                         closure=c)))
  for m in GENERAL:
    for w in ('state', 'parameters'):
      out.append((f'one step {m} {w}', one_step, dict(model=m, wrt=w)))
  return out
