"""What a single bounded harness has at hand."""
import json
import math
import random
import traceback

import numpy as np

from vlib import sym
from vlib.query import CloseQuery, Inconclusive, solve
from vlib.sym import Poly, STATS, Unsupported, kind


class Violation(Exception):
  def __init__(self, detail, inputs=None):
    super().__init__(detail)
    self.detail = detail
    self.inputs = inputs


class Unreproduced(Exception):
  """A counterexample of the encoding that the real code does not show."""


def jsonable(x):
  if isinstance(x, dict):
    return {str(k): jsonable(v) for k, v in x.items() if k != '__model__'}
  if isinstance(x, (list, tuple)):
    return [jsonable(v) for v in x]
  if isinstance(x, np.ndarray):
    return jsonable(x.tolist())
  if isinstance(x, np.generic):
    return jsonable(x.item())
  if isinstance(x, float) and not math.isfinite(x):
    return repr(x)
  if isinstance(x, (int, float, str, bool)) or x is None:
    return x
  return repr(x)


def concretise(arr, env, default=0.0):
  """Object array of polynomials to floats under env (names to floats)."""
  if not (isinstance(arr, np.ndarray) and arr.dtype == object):
    return np.asarray(arr)
  ids = {i: env.get(Poly.names[i], default) for e in arr.flat
         if isinstance(e, Poly) for i in e.vars()}
  out = np.empty(arr.shape, dtype=np.float64)
  for i in np.ndindex(*arr.shape):
    e = arr[i]
    out[i] = e.eval(ids) if isinstance(e, Poly) else e
  return out


def leaves(x):
  import jax
  return jax.tree_util.tree_leaves(x, is_leaf=lambda v: v is None)


class H:
  """Passed to every harness."""

  def __init__(self, name, tier, seed):
    self.name = name
    self.tier = tier
    self.thorough = tier == 'thorough'
    self.rng = random.Random(f'{seed}/{name}')
    self.nprng = np.random.default_rng(abs(hash(name)) % 2**32 if False else
                                       sum(map(ord, name)) + seed)
    self.smokes = []      # concrete runs of the real code: () -> detail | None
    self.queries0 = STATS.queries

  def func(self, *names):
    STATS.functions.update(names)

  def bound(self, text):
    if text not in STATS.bounds:
      STATS.bounds.append(text)

  def assume(self, text):
    if text not in STATS.assumptions:
      STATS.assumptions.append(text)

  def sample(self, **kw):
    if len(STATS.samples) < 12:
      STATS.samples.append(jsonable(dict(harness=self.name, **kw)))

  def smoke(self, f, times=2):
    self.smokes.append((f, times))

  def witness(self, formulas=()):
    """Reachability twin: the assumptions of the harness are satisfiable."""
    m = solve(list(formulas))
    if m is None:
      raise Inconclusive(f'{self.name}: vacuous, assumptions unsatisfiable')
    STATS.witnesses += 1
    return m

  def fail(self, detail, inputs=None):
    raise Violation(f'{self.name}: {detail}', jsonable(inputs))

  def equal(self, f, oracle, args, *, tol=1e-7, rtol=0.0, box=None,
            default_box=1.0, run_tol=None, hooks=None, real=None, label='',
            smoke=True, call=None):
    """Proves that f(*args) equals oracle(*args) for all symbols in the box.

    f is the real code (traced by JAX), oracle plain numpy over symbols.
    """
    import jax
    from vlib import jsym
    real = real or f
    run_tol = run_tol or max(tol * 10, 1e-6)

    def run(env):
      flat, tree = jax.tree_util.tree_flatten(args)
      conc = jax.tree_util.tree_unflatten(
          tree, [concretise(getattr(a, 'arr', a), env) for a in flat])
      got = [np.asarray(g) for g in leaves(real(*conc))]
      want = [np.asarray(w) for w in leaves(oracle(*conc))]
      return compare(got, want, run_tol)

    if smoke:
      def one():
        env = Rand(self.nprng, box, default_box)
        return run(env), dict(env)
      self.smokes.append((one, 2))
    got = (call or jsym.call)(f, *args, **({'hooks': hooks} if hooks else {}))
    want = oracle(*[jsym_tree(a) for a in args])
    self.close(leaves(got), leaves(want), run, tol=tol, box=box,
               default_box=default_box, label=label)

  def close(self, got, want, run, *, tol=1e-7, box=None, default_box=1.0,
            label='', extra=()):
    from vlib import jsym
    got, want = list(got), list(want)
    if len(got) != len(want):
      self._replay(run, {}, f'{label} number of results')
    q = CloseQuery(box=box, default_box=default_box, tol=tol, extra=extra)
    n = 0
    for k, (g, w) in enumerate(zip(got, want)):
      g, w = jsym.to_obj(g), jsym.to_obj(w)
      if g.shape != w.shape:
        self._replay(run, {}, f'{label} shape {g.shape} instead of {w.shape}')
        return
      for i in np.ndindex(*g.shape):
        q.add((k,) + i, g[i], w[i])
        n += 1
    STATS.obligations += n
    r = q.decide()
    if r is not None:
      where, env = r
      self._replay(run, env, f'{label} component {where}')
    if not q.items and not q.general:
      # every component cancelled exactly; record the (trivial) verdict
      solve([False])
    self.sample(label=label or 'equality', components=n,
                cancelled_exactly=q.trivial, box=str(box or default_box),
                tolerance=tol)

  def _replay(self, run, env, what, scales=()):
    """Replays a counterexample on the real code.

    Without values for the symbols, random ones are tried, also of other scales.
    """
    known = dict(env)
    if not env:
      env = Rand(self.nprng, None, 1.0)
    d = run(env)
    if d is None:
      # a single witness may be masked by rounding; try a few more
      for scale in (1.0,) * 5 + (() if known else tuple(scales)):
        e2 = Rand(self.nprng, None, scale)
        e2.update(known or {})
        d = run(e2)
        if d is not None:
          env = e2
          break
    if d is None:
      raise Unreproduced(f'{self.name}: {what}: {jsonable(dict(env))}')
    self.fail(f'{what}: {d}', dict(env))


class Rand(dict):
  """Environment that draws missing symbols at random and remembers them."""

  def __init__(self, rng, box, default):
    super().__init__()
    self.rng = rng
    self.box = box or {}
    self.default = default

  def get(self, name, default=None):
    if name not in self:
      b = self.box.get(name, self.box.get(name.split('[')[0], self.default))
      lo, hi = b if isinstance(b, tuple) else (-b, b)
      self[name] = float(self.rng.uniform(lo, hi))
    return self[name]

  def __bool__(self):
    return True


def jsym_tree(a):
  import jax
  return jax.tree_util.tree_map(lambda x: getattr(x, 'arr', x), a)


def compare(got, want, tol):
  if len(got) != len(want):
    return f'{len(got)} results instead of {len(want)}'
  for k, (g, w) in enumerate(zip(got, want)):
    g, w = np.asarray(g), np.asarray(w)
    if g.shape != w.shape:
      return f'result {k} has shape {g.shape} instead of {w.shape}'
    gf, wf = g.astype(np.float64), w.astype(np.float64)
    bad = ~((np.abs(gf - wf) <= tol * (1 + np.abs(wf))) | (gf == wf)
            | (np.isnan(gf) & np.isnan(wf)))
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      return (f'result {k} at {i}: {gf[i]!r} instead of {wf[i]!r}')
  return None
