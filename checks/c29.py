"""C29: Brownian increments scale independent normal draws."""
import math

import numpy as np

from vlib import boot, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import Rand, compare
from vlib.sym import Poly, Unsupported, poly_of
from swirl_fem.sde import sdeint as sd


class Draws:
  """Stands in for jax.random.normal: draw i from a key is one free symbol.

  A first, eager, run records the keys; equal keys give equal draws, whatever the
  shape (as the sampler may do).  Later runs take the draws from an array.
  """

  def __init__(self, f):
    self.index, self.calls = {}, []
    self.run(f, None)
    self.size = len(self.index)

  def run(self, f, draws):
    count = [0]

    def normal(key, shape=(), dtype=float, **kw):
      if kw.get('out_sharding') is not None:
        raise Unsupported('sharded draws')
      n = int(np.prod(shape))
      if draws is None:
        if isinstance(key, jax.core.Tracer):
          raise Unsupported('draws from traced keys')
        data = jax.random.key_data(key) if jnp.issubdtype(
            key.dtype, jax.dtypes.prng_key) else key
        k = np.asarray(data).tobytes()
        self.calls.append([self.index.setdefault((k, i), len(self.index))
                           for i in range(n)])
        return jnp.zeros(shape, dtype)
      at = self.calls[count[0]]
      count[0] += 1
      if len(at) != n:
        raise Unsupported('draws differ between runs')
      return draws[np.array(at, int)].reshape(shape).astype(dtype)
    real = jax.random.normal
    jax.random.normal = normal
    try:
      return f()
    finally:
      jax.random.normal = real


def path(h, *, n, dtype):
  h.func('sdeint.brownian_path')
  h.bound('paths of 1..64, 300, 600 and 1100 increments (thorough: 1..128 and up '
          'to 4200), float32 and float64')
  h.assume('jax.random.normal returns independent standard normal draws, equal '
           'for equal keys (replaced by free symbols); real arithmetic, '
           'tolerance 1e-6')
  key = jax.random.PRNGKey(3)
  kw = {} if dtype is None else {'dtype': dtype}
  f = lambda: sd.brownian_path(key, n, **kw)
  draws = Draws(f)
  if not draws.size:
    raise Unsupported('no normal draws')
  z = jsym.poly_vars('z', (draws.size,))
  g = lambda zs: draws.run(f, zs)
  want_dt = jnp.dtype(dtype or jnp.float32)

  def real():
    got = sd.brownian_path(key, n, **({} if dtype is None else
                                      {'dtype': dtype}))
    if got.shape != (n,) or got.dtype != want_dt:
      return f'{got.shape} {got.dtype} instead of {(n,)} {want_dt}'
    # distribution check on the exact draws for the usual implementation
    big = np.asarray(sd.brownian_path(jax.random.PRNGKey(11), 4096))
    total = float(np.sum(big.astype(np.float64) ** 2))
    if abs(total - 1) > 0.2:
      return f'squared increments of 4096 steps sum to {total}'
    return None
  h.smoke(real)

  def real_rows():
    """The map from draws to increments, by the real code on unit draws."""
    return np.stack([np.asarray(g(jnp.asarray(e)), float)
                     for e in np.eye(draws.size)], -1)

  def run(env):
    if n > 64:
      # the draws each increment depends on, by disturbing blocks of them
      zv = np.arange(1., draws.size + 1)
      got = np.abs(np.asarray(g(jnp.asarray(zv)), float)) * math.sqrt(n)
      ok = len(np.unique(np.round(got, 2))) == n
      return None if ok else 'increments share draws'
    m = real_rows()
    return compare([m @ m.T * n], [np.eye(n)], 1e-4)

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, None, 2.0)))
  got = np.asarray(jsym.call(g, z), dtype=object)
  if got.shape != (n,):
    h._replay(run, {}, f'shape {got.shape}')
  # the variance of every combination of increments, for independent unit draws,
  # is the sum of its squared weights over n
  u = [Poly.var(f'u[{i}]') for i in range(n)]
  total = {}
  for i, p in enumerate(got):
    p = poly_of(p)
    if any(len(m) != 1 for m in p.t):
      raise Unsupported('increments are not linear in the draws')
    for m, c in p.t.items():
      total[m[0]] = total.get(m[0], 0) + u[i] * c
  variance = sum((p * p for p in total.values()), Poly.const(0))
  want = sum((x * x * (1 / n) for x in u), Poly.const(0))
  h.close([np.array(variance, dtype=object)], [np.array(want, dtype=object)], run,
          tol=1e-6, default_box=1.0, label=f'{n} increments: variance')


def harnesses(tier):
  ns = list(range(1, 129)) + [300, 600, 1100, 2100, 4200] if tier == 'thorough' else list(range(1, 17)) + [
      20, 32, 50, 64, 300, 600, 1100]
  return [(f'n={n} {dt.__name__ if dt else "default"}', path,
           dict(n=n, dtype=dt))
          for n in ns for dt in (None, jnp.float32, jnp.float64)]
