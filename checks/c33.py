"""C33: integrating a flax module is integrating its pure function."""
import numpy as np

from vlib import boot, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import flax.linen as nn
import jax
import jax.numpy as jnp
from checks.c22 import increasing, oracle, tmap
from vlib.harness import Rand, compare, concretise
from vlib.query import Under
from swirl_fem.sde import flax_nn_sde
from swirl_fem.sde import sdeint as sd

ONES = nn.initializers.ones


class Affine(nn.Module):
  """Parameters in the drift and in the diffusion, dependence on time."""
  size: int = 1

  @nn.compact
  def __call__(self, x, t, dw):
    k = self.param('k', ONES, (self.size, self.size), jnp.float64)
    b = self.param('b', ONES, (self.size,), jnp.float64)
    s = self.param('s', ONES, (self.size,), jnp.float64)
    return k @ x + b * t, s * x * dw


class Context(nn.Module):
  """Additional arguments, parameters of a submodule."""
  size: int = 1

  @nn.compact
  def __call__(self, x, t, dw, u, v):
    y = nn.Dense(self.size, param_dtype=jnp.float64, name='d')(x + u * t)
    return y, (x + v['s']) * dw


class Tree(nn.Module):
  """A nested state."""

  @nn.compact
  def __call__(self, x, t, dw):
    k = self.param('k', ONES, (3,), jnp.float64)
    p, q = x['p'], x['q']
    return ({'p': k[0] * q[0] + t, 'q': k[1] * q + p},
            {'p': k[2] * p * dw, 'q': q * dw})


class Free(nn.Module):
  """No parameters at all."""

  def __call__(self, x, t, dw):
    return -x + t, (1 + x) * dw


class Shared(nn.Module):
  """Uses a module of its parent next to its own parameters."""
  enc: nn.Module

  @nn.compact
  def __call__(self, x, t, dw):
    s = self.param('s', ONES, (), jnp.float64)
    return self.enc(x) * t, s * x * dw


class Consts(nn.Module):
  """Reads a collection other than the parameters."""

  @nn.compact
  def __call__(self, x, t, dw):
    c = self.variable('consts', 'c', lambda: jnp.ones((2,), jnp.float64))
    k = self.param('k', ONES, (), jnp.float64)
    return c.value[0] * k * x, c.value[1] * x * dw


class Lifted(nn.Module):
  """Applies a lifted module, batched or twice."""
  inner: type
  size: int = 1
  mode: str = 'plain'

  def setup(self):
    lift = flax_nn_sde.nn_sdeint(self.inner)
    if self.inner is Shared:
      self.enc = nn.Dense(self.size, param_dtype=jnp.float64)
      self.m = lift(self.enc)
    elif self.inner in (Affine, Context):
      self.m = lift(self.size)
      if self.mode == 'twice':
        self.m2 = lift(self.size)
    else:
      self.m = lift()

  def __call__(self, x, ts, dw, *args):
    if self.inner is Shared:
      x = self.enc(x)
    if self.mode == 'batch':
      return jax.vmap(lambda x, dw: self.m(x, ts, dw, *args))(x, dw)
    y = self.m(x, ts, dw, *args)
    if self.mode == 'twice':
      return self.m2(y[-1], ts, dw, *args)
    return y


# The drift and diffusion of each module as plain functions of its parameters.


def affine(x, t, dw, a):
  return a['k'] @ x + a['b'] * t, a['s'] * x * dw


def context(x, t, dw, a):
  d = a['p']['d']
  return (x + a['u'] * t) @ d['kernel'] + d['bias'], (x + a['v']['s']) * dw


def tree(x, t, dw, a):
  k, p, q = a['k'], x['p'], x['q']
  return ({'p': k[0] * q[0] + t, 'q': k[1] * q + p},
          {'p': k[2] * p * dw, 'q': q * dw})


def free(x, t, dw, a):
  return t - x, (x + 1) * dw


def shared(x, t, dw, a):
  return (x @ a['enc']['kernel'] + a['enc']['bias']) * t, a['m']['s'] * x * dw


def consts(x, t, dw, a):
  return a['c'][0] * a['k'] * x, a['c'][1] * x * dw


KINDS = {'affine': (Affine, affine), 'context': (Context, context),
         'tree': (Tree, tree), 'free': (Free, free), 'shared': (Shared, shared),
         'consts': (Consts, consts)}


def problem(kind, size, segments, steps, mode):
  """Symbolic variables, state, times, noise and further arguments."""
  v = jsym.poly_vars
  lead = (2,) if mode == 'batch' else ()
  x = ({'p': v('xp', ()), 'q': v('xq', (size,))} if kind == 'tree' else
       v('x', lead + (size,)))
  dense = lambda n: {'kernel': v(n + 'k', (size, size)), 'bias': v(n + 'b', (size,))}
  aff = lambda n: {'k': v(n + 'k', (size, size)), 'b': v(n + 'b', (size,)),
                   's': v(n + 's', (size,))}
  args = ()
  if kind == 'affine':
    params = {'m': aff('p')}
    if mode == 'twice':
      params['m2'] = aff('q')
  elif kind == 'context':
    params = {'m': {'d': dense('p')}}
    args = (v('u', (size,)), {'s': v('v', (size,))})
  elif kind == 'tree':
    params = {'m': {'k': v('p', (3,))}}
  elif kind == 'free':
    params = {}
  elif kind == 'shared':
    params = {'m': {'s': v('p', ())}, 'enc': dense('e')}
  else:
    params = {'m': {'k': v('p', ())}}
  variables = {'params': params} if params else {}
  if kind == 'consts':
    variables['consts'] = {'m': {'c': v('c', (2,))}}
  ts = v('t', (segments + 1,))
  dw = v('w', lead + (segments * steps,))
  return variables, x, ts, dw, args


def arguments(kind, variables, args, name='m'):
  """What the plain function of a module takes as its parameters."""
  p = variables.get('params', {})
  if kind == 'context':
    return {'p': p[name], 'u': args[0], 'v': args[1]}
  if kind == 'shared':
    return p
  if kind == 'consts':
    return {**p[name], **variables['consts'][name]}
  return p.get(name, {})


def setting(h):
  h.func('flax_nn_sde.core_sdeint', 'flax_nn_sde.nn_sdeint', 'sdeint.sdeint',
         'sdeint._sdeint')
  h.bound('six modules (own parameters, submodule, further arguments, nested '
          'state, no parameters, module shared with the parent, further '
          'collection), states of 1-2 components, up to 2 segments and 3 steps '
          'in all; plain, batched and repeated application; all parameter '
          'values, states, times and increments')
  h.assume('real arithmetic, tolerance 1e-7; values in [-1, 1]; output times in '
           '[0, 1] increase by at least 1e-3')


def leaves(x):
  return jax.tree_util.tree_leaves(x)


def times_of(env, ts):
  n = len(ts)
  tv = np.sort([env.get(f't[{i}]', 0.0) for i in range(n)])
  if n > 1 and np.min(np.diff(tv)) < 1e-3:
    tv = np.linspace(0, 1, n)
  return tv


def values(h, *, kind, size, segments, steps, mode='plain'):
  setting(h)
  cls, pure = KINDS[kind]
  variables, x, ts, dw, args = problem(kind, size, segments, steps, mode)
  model = Lifted(inner=cls, size=size, mode=mode)
  times = increasing(ts)
  h.witness(times)

  def lifted(variables, x, ts, dw, args):
    return model.apply(variables, x, ts, dw, *args)

  def want(variables, x, ts, dw, args):
    if kind == 'shared':
      e = variables['params']['enc']
      x = x @ e['kernel'] + e['bias']
    f = lambda x, dw, name='m': oracle(
        pure, x, ts, dw, arguments(kind, variables, args, name))
    if mode == 'batch':
      return np.stack([f(x[i], dw[i]) for i in range(len(x))])
    y = f(x, dw)
    return f(y[-1], dw, 'm2') if mode == 'twice' else y

  def run(env):
    c = lambda t: tmap(lambda v: concretise(v, env), t)
    tv = times_of(env, ts)
    vv, xv, wv, av = c(variables), c(x), c(dw), c(args)
    got = lifted(*tmap(jnp.asarray, (vv, xv, tv, wv, av)))
    w = want(vv, xv, tv, wv, av)
    gs, ws = (jax.tree_util.tree_structure(v) for v in (got, w))
    if gs != ws:
      return f'result structure {gs} instead of {ws}'
    return compare([np.asarray(v) for v in leaves(got)],
                   [np.asarray(v, dtype=np.float64) for v in leaves(w)], 1e-6)

  def initial(env):
    """Initialisation creates the parameters and an output of the right shape."""
    c = lambda t: tmap(lambda v: jnp.asarray(concretise(v, env)), t)
    out, vs = model.init_with_output(jax.random.PRNGKey(1), c(x),
                                     jnp.asarray(times_of(env, ts)), c(dw),
                                     *c(args))
    shapes = lambda t: tmap(np.shape, t)
    if shapes(dict(vs)) != shapes(variables):
      return f'initialised {shapes(dict(vs))} instead of {shapes(variables)}'
    a = model.apply(vs, c(x), jnp.asarray(times_of(env, ts)), c(dw), *c(args))
    if shapes(out) != shapes(a):
      return f'initial output {shapes(out)}, later {shapes(a)}'
    return None

  box = {'t': (0.0, 1.0)}
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, box, 1.0)))
  h.smoke(lambda: (lambda e: (initial(e), dict(e)))(Rand(h.nprng, box, 1.0)))
  got = jsym.call(lifted, variables, x, ts, dw, args,
                  hooks={'prune': Under(times)})
  w = want(variables, x, ts, dw, args)
  if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(w):
    h._replay(run, {}, 'result structure')
  h.close(leaves(got), leaves(w), run, tol=1e-7, box=box, extra=times,
          label=f'{kind} {mode}, {segments} segments of {steps} steps')


def gradients(h, *, kind, size, segments, steps, mode='plain'):
  """Pulling back through the lifted module and through the pure function."""
  setting(h)
  cls, pure = KINDS[kind]
  variables, x, ts, dw, args = problem(kind, size, segments, steps, mode)
  model = Lifted(inner=cls, size=size, mode=mode)
  times = increasing(ts)
  ct = tmap(lambda v: v, x)
  flat, tree_ = jax.tree_util.tree_flatten(x)
  lead = 1 if mode == 'batch' else 0
  ct = jax.tree_util.tree_unflatten(tree_, [
      jsym.poly_vars(f'g{k}', v.shape[:lead] + (segments,) + v.shape[lead:])
      for k, v in enumerate(flat)])

  def lifted(variables, x, ts, dw, args, ct):
    f = lambda v, x, a: model.apply(v, x, ts, dw, *a)
    return jax.vjp(f, variables, x, args)[1](ct)

  def plain(variables, x, ts, dw, args, ct):
    def f(v, x, a):
      if kind == 'shared':
        e = v['params']['enc']
        x = x @ e['kernel'] + e['bias']
      one = lambda x, dw: sd.sdeint(pure, x, ts, dw, arguments(kind, v, a))
      return jax.vmap(one)(x, dw) if mode == 'batch' else one(x, dw)
    return jax.vjp(f, variables, x, args)[1](ct)

  def run(env):
    c = lambda t: tmap(lambda v: jnp.asarray(concretise(v, env)), t)
    a = (c(variables), c(x), jnp.asarray(times_of(env, ts)), c(dw), c(args), c(ct))
    got, want = lifted(*a), plain(*a)
    return compare([np.asarray(v) for v in leaves(got)],
                   [np.asarray(v) for v in leaves(want)], 1e-6)

  box = {'t': (0.0, 1.0)}
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, box, 1.0)))
  hooks = {'prune': Under(times)}
  got, want = (jsym.call(f, variables, x, ts, dw, args, ct, hooks=hooks)
               for f in (lifted, plain))
  h.close(leaves(got), leaves(want), run, tol=1e-7, box=box, extra=times,
          label=f'gradient {kind} {mode}, {segments} segments of {steps} steps')


class Noisy(nn.Module):
  """Draws random numbers."""

  @nn.compact
  def __call__(self, x, t, dw):
    k = self.param('k', ONES, (), jnp.float64)
    z = jax.random.uniform(self.make_rng('noise'), x.shape)
    return k * x * z, x * dw


def randomness(h, *, segments, steps):
  """Random streams reach the module; one draw serves every step."""
  setting(h)
  model = Lifted(inner=Noisy, size=2)
  key = jax.random.PRNGKey(3)
  v = {'params': {'m': {'k': jsym.poly_vars('p', ())}}}
  x, ts = jsym.poly_vars('x', (2,)), jsym.poly_vars('t', (segments + 1,))
  dw = jsym.poly_vars('w', (segments * steps,))
  ct = jsym.poly_vars('g', (segments, 2))
  times = increasing(ts)

  def lifted(v, x, ts, dw, ct):
    f = lambda v, x: model.apply(v, x, ts, dw, rngs={'noise': key})
    y, pull = jax.vjp(f, v, x)
    return y, pull(ct)

  def draws():
    # one step reveals them: dx/dt = k z x
    one = model.apply({'params': {'m': {'k': jnp.ones(())}}}, jnp.ones((2,)),
                      jnp.array([0., 1.]), jnp.array([0.0]),
                      rngs={'noise': key})[0]
    return one - 1

  def plain(v, x, ts, dw, ct):
    f = lambda v, x: sd.sdeint(lambda x, t, w, k, z: (k * x * z, x * w), x, ts,
                               dw, v['params']['m']['k'], z)
    y, pull = jax.vjp(f, v, x)
    return y, pull(ct)

  def run(env):
    c = lambda t: tmap(lambda v: jnp.asarray(concretise(v, env)), t)
    a = (c(v), c(x), jnp.asarray(times_of(env, ts)), c(dw), c(ct))
    if not bool(jnp.all((z >= 0) & (z < 1))) or abs(float(z[0] - z[1])) < 1e-9:
      return f'not independent uniform draws: {z}'
    return compare([np.asarray(u) for u in leaves(lifted(*a))],
                   [np.asarray(u) for u in leaves(plain(*a))], 1e-6)

  z = draws()
  box = {'t': (0.0, 1.0)}
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, box, 1.0)))
  hooks = {'prune': Under(times)}
  got, want = (jsym.call(f, v, x, ts, dw, ct, hooks=hooks)
               for f in (lifted, plain))
  h.close(leaves(got), leaves(want), run, tol=1e-7, box=box, extra=times,
          label='random streams')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for kind in KINDS:
    sizes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 3)]
    if kind in ('affine', 'free', 'tree'):
      sizes += [(2, 2, 1), (2, 1, 2)]
    if th:
      sizes += [(2, 2, 1), (2, 1, 2), (1, 3, 1), (1, 2, 2)]
    for s in dict.fromkeys(sizes):
      d = dict(kind=kind, size=s[0], segments=s[1], steps=s[2])
      n = f'{kind} size {s[0]} {s[1]}x{s[2]}'
      out.append((n, values, d))
      if s[1] * s[2] <= 2:
        out.append(('gradient ' + n, gradients, d))
    if kind in ('affine', 'context', 'free', 'consts'):
      d = dict(kind=kind, size=1, segments=2, steps=1, mode='batch')
      out.append((f'{kind} batch', values, d))
      out.append((f'gradient {kind} batch', gradients, d))
  for s in [(1, 1, 1), (2, 1, 1), (1, 2, 1)]:
    out.append((f'affine twice size {s[0]} {s[1]}x{s[2]}', values,
                dict(kind='affine', size=s[0], segments=s[1], steps=s[2],
                     mode='twice')))
  for s in [(1, 1), (1, 2), (2, 1)]:
    out.append((f'random streams {s[0]}x{s[1]}', randomness,
                dict(segments=s[0], steps=s[1])))
  return out
