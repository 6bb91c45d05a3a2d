"""C20: distributed compilation maps a function over devices."""
import itertools

import numpy as np

from vlib import boot, jsym, ops
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
from jax import lax
import jax.numpy as jnp
from vlib.sym import Unsupported
from swirl_fem.communication.jit_distributed import jit_distributed

AX = 'i'


class Tag:
  """A static argument that is nothing but itself."""

  def __init__(self, name, factor):
    self.name, self.factor = name, factor

  def __repr__(self):
    return self.name


def leaves(x):
  return jax.tree_util.tree_leaves(x)


def factor(x):
  """What a static argument contributes."""
  if isinstance(x, Tag):
    return x.factor
  if isinstance(x, str):
    return float(len(x))
  if isinstance(x, tuple):
    return sum(factor(v) for v in x)
  return float(x) if x is not None else 0.5


def split(bound, static):
  """Sharded leaves and static values in the order of the names."""
  sh, st = [], []
  for k in sorted(bound):
    if k in static:
      st.append((k, bound[k]))
    else:
      sh += leaves(bound[k])
  return sh, st


def local(bound, static, seen):
  """What a device computes: every argument counts, and so does its place."""
  sh, st = split(bound, static)
  seen.append(dict(st))
  idx = lax.axis_index(AX)
  scale = sum((k + 2.0) * factor(v) for k, (_, v) in enumerate(st))
  if not sh:
    return {'a': idx * 1.0 + scale}
  # every device counts by its neighbour and by its number
  n = lax.psum(1, AX)
  out = scale
  for k, x in enumerate(sh):
    out = out + (3.0 * k + 1.0) * x.sum()
  right = lax.ppermute(out, AX, [(d, (d + 1) % n) for d in range(n)])
  return {'a': out * (1.0 + idx), 'b': (lax.psum(out * out, AX), right),
          'c': [2.0 * x - scale for x in sh]}


def oracle(bound, static, n):
  """The same for all devices, on arrays with a leading device axis."""
  sh, st = split(bound, static)
  scale = sum((k + 2.0) * factor(v) for k, (_, v) in enumerate(st))
  if not sh:
    return {'a': np.arange(n) * 1.0 + scale}
  out = [scale] * n
  for d in range(n):
    for k, x in enumerate(sh):
      out[d] = out[d] + (3.0 * k + 1.0) * sum(
          np.asarray(x[d]).reshape(-1).tolist())
  sq = sum(o * o for o in out)
  arr = lambda xs: np.array(xs, dtype=object if any(
      not isinstance(x, (int, float, np.generic)) for x in xs) else None)
  return {'a': arr([o * (1.0 + d) for d, o in enumerate(out)]),
          'b': (arr([sq] * n), arr([out[d - 1] for d in range(n)])),
          'c': [2.0 * x - scale for x in sh]}


def make(signature, static, seen):
  """A function with the given signature."""
  ns = {'local': local, 'static': frozenset(static), 'seen': seen,
        'T': Tag('default', 0.75)}
  exec(f'def f({signature}):\n  return local(dict(locals()), static, seen)', ns)
  return ns['f'], ns['T']


def devices(n, shape=None):
  d = jax.devices()
  if len(d) < n:
    raise Unsupported(f'{len(d)} devices')
  return jax.sharding.Mesh(np.array(d[:n]), (AX,))


def mapping(h, *, signature, static, declared, calls, n):
  """One signature in several calling conventions.

  static: names that are static; declared: what is passed as static_argnames.
  calls: list of (positional, keyword) with 'x', 'y', .. for sharded arguments.
  """
  h.func('jit_distributed.jit_distributed')
  h.bound('1, 2, 3, 4 and 8 devices; 34 signatures; argument values in [-1, 1]')
  seen = []
  f, default = make(signature, static, seen)
  def build():
    return jit_distributed(f, devices(n), AX, **(
        {} if declared is None else {'static_argnames': declared}))
  h.smoke(lambda: None if callable(build()) else 'no function results', 1)
  mapped = build()
  tags = {f'T{k}': Tag(f'T{k}', 0.5 * k + 1) for k in range(4)}
  shapes = {'x': (n, 2), 'y': (n,), 'z': (n, 1, 2), 'w': (n, 3)}

  def value(v, env):
    if isinstance(v, str) and v in tags:
      return tags[v]
    if isinstance(v, str) and v in env:
      return env[v]
    if isinstance(v, dict):
      return {k: value(u, env) for k, u in v.items()}
    if isinstance(v, list):
      return [value(u, env) for u in v]
    return v

  import inspect
  sig = inspect.signature(f)
  def one(pos, kw):
    names = sorted({v for v in leaves((pos, list(kw.values())))
                    if isinstance(v, str) and v in shapes})

    def run(*arrays):
      env = dict(zip(names, arrays))
      args = [value(v, env) for v in pos]
      kws = {k: value(v, env) for k, v in kw.items()}
      mark = len(seen)
      out = mapped(*args, **kws)
      b = sig.bind(*args, **kws)
      b.apply_defaults()
      for s in seen[mark:]:     # only what was traced now
        for k, v in s.items():
          if v is not b.arguments[k] and v != b.arguments[k]:
            h.fail(f'static argument {k} arrives as {v!r} instead of '
                   f'{b.arguments[k]!r}', dict(signature=signature))
      return out

    def want(*arrays):
      env = dict(zip(names, arrays))
      b = sig.bind(*[value(v, env) for v in pos],
                   **{k: value(v, env) for k, v in kw.items()})
      b.apply_defaults()
      return oracle(b.arguments, static, n)
    args = [jsym.poly_vars(v, shapes[v]) for v in names]
    if names:
      h.equal(run, want, args, tol=1e-9, label=f'{signature} called {pos} {kw}')
    else:
      # nothing to vary: the one result
      def single():
        got = np.asarray(run()['a'])
        if got.shape != (n,) or np.abs(got - want()['a']).max() > 1e-9:
          return f'({signature}) called {pos} {kw} returns {got}'
      h.smoke(single)
      h.equal(lambda: run(), want, [], label=f'{signature} called {pos} {kw}')
  for pos, kw in calls:
    one(pos, kw)


# signature, static names, declared static names, calls
CASES = [
    ('x', (), None, [(['x'], {}), ([], {'x': 'x'})]),
    ('x, y', (), None, [(['x', 'y'], {}), (['y', 'x'], {}),
                        (['x'], {'y': 'y'}), ([], {'y': 'x', 'x': 'y'})]),
    ('x, y, z', (), (), [(['z', 'x', 'y'], {}), (['x'], {'z': 'y', 'y': 'w'})]),
    ('x, *, s', ('s',), None, [(['x'], {'s': 2}), ([], {'x': 'x', 's': 'T1'}),
                               (['x'], {'s': 3}), (['x'], {'s': 'T2'})]),
    ('x, *, s=4', ('s',), None, [(['x'], {}), (['x'], {'s': 5})]),
    ('x, *, s=T', ('s',), None, [(['x'], {}), (['x'], {'s': 'T0'})]),
    ('x, *, s, t=2.5', ('s', 't'), None, [(['x'], {'s': 1}),
                                          (['x'], {'t': 3, 's': 'T3'})]),
    ('n, x', ('n',), ('n',), [([2, 'x'], {}), (['T1'], {'x': 'x'}),
                              ([], {'n': 3, 'x': 'x'}),
                              ([], {'x': 'x', 'n': 'T1'})]),
    ('x, n', ('n',), ('n',), [(['x', 2], {}), (['x'], {'n': 'T1'}),
                              ([], {'n': 3, 'x': 'x'})]),
    ('x, n=3', ('n',), ('n',), [(['x', 2], {}), (['x'], {}),
                                (['x'], {'n': 1})]),
    ('x, n, y', ('n',), ('n',), [(['x', 2, 'y'], {}), (['x', 'T2'], {'y': 'y'}),
                                 (['x'], {'n': 3, 'y': 'y'}),
                                 (['y', 'T2', 'x'], {})]),
    ('n, x, m, y', ('n', 'm'), ('n', 'm'), [
        (['T1', 'x', 'T2', 'y'], {}), (['T2', 'x', 'T1', 'y'], {}),
        ([2, 'x'], {'y': 'y', 'm': 5})]),
    ('n, m, x', ('n', 'm'), ('m', 'n'), [(['T1', 'T2', 'x'], {}),
                                         (['T2', 'T1', 'x'], {})]),
    ('x, *, y', (), (), [(['x'], {'y': 'y'}), ([], {'x': 'y', 'y': 'x'})]),
    ('x, *, s, y', ('s',), ('s',), [(['x'], {'s': 2, 'y': 'y'}),
                                    (['x'], {'y': 'w', 's': 'T1'})]),
    ('*, x, s', ('s',), ('s',), [([], {'x': 'x', 's': 2})]),
    ('n, *, x, s=1', ('n', 's'), ('n', 's'), [(['T1'], {'x': 'x'}),
                                              ([3], {'x': 'x', 's': 'T1'})]),
    ('x, n=2, *, s=T', ('n', 's'), ('n', 's'), [
        (['x'], {}), (['x', 5], {'s': 7}), (['x'], {'n': 'T3'})]),
    ('x, y=None', (), None, [(['x'], {}), (['x', 'y'], {}),
                             (['x'], {'y': 'y'})]),
    ('x, *, s="ab"', ('s',), None, [(['x'], {}), (['x'], {'s': 'abcd'}),
                                    (['x'], {'s': (1, 2)})]),
    ('x', (), None, [([{'p': 'x', 'q': ['y', 'z']}], {})]),
    ('x, *, s', ('s',), None, [([['x', {'a': 'y'}]], {'s': 3})]),
    ('*xs', (), None, [(['x'], {}), (['x', 'y', 'z'], {})]),
    ('x, *xs, s=2', ('s',), None, [(['x'], {}), (['y', 'x', 'w'], {'s': 3})]),
    ('n, *xs', ('n',), ('n',), [([2, 'x'], {}), (['T1', 'y', 'x', 'z'], {})]),
    ('x, n, *xs, s=3', ('n', 's'), ('n', 's'), [
        (['x', 2, 'y'], {}), (['x', 'T1', 'y', 'w'], {'s': 2}),
        (['y', 4], {})]),
    ('n, x, *xs, y, **kw', ('n',), ('n',), [
        ([3, 'x', 'z'], {'y': 'y'}), (['T2', 'z'], {'y': 'x', 'b': 'w'})]),
    ('x, n, **kw', ('n',), ('n',), [(['x', 2], {'b': 'y'}),
                                    (['x'], {'n': 'T1', 'c': 'w', 'a': 'x'})]),
    ('x, **kw', (), None, [(['x'], {}), (['x'], {'b': 'y', 'a': 'w'})]),
    ('', (), None, [([], {})]),
    ('*, s', ('s',), None, [([], {'s': 3}), ([], {'s': 'T1'})]),
    ('*, s=T', ('s',), None, [([], {}), ([], {'s': 2})]),
    ('n', ('n',), ('n',), [([2], {}), ([], {'n': 'T2'})]),
    ('n, m=5, *, s=1', ('n', 'm', 's'), ('n', 'm', 's'), [
        ([2], {}), (['T1', 3], {'s': 4})]),
]


def repeated(h, *, n):
  """A changed static argument takes effect; an equal one gives the same."""
  h.func('jit_distributed.jit_distributed')
  seen = []
  f, _ = make('x, n, *, s=1', ('n', 's'), seen)
  mapped = jit_distributed(f, devices(n), AX, static_argnames=('n', 's'))
  def one(args, kw):
    def run(x):
      return mapped(x, *args, **kw)

    def want(x):
      return oracle(dict(x=x, n=args[0], s=kw.get('s', 1)), ('n', 's'), n)
    h.equal(run, want, [jsym.poly_vars('x', (n, 2))], tol=1e-9,
            label=f'again {args} {kw}')
  for args, kw in itertools.product(([2], [3], [2]), ({}, {'s': 2}, {})):
    one(args, kw)


def integers(h, *, n):
  """Types survive: integers and truth values, for all values."""
  h.func('jit_distributed.jit_distributed')
  h.bound('all 32-bit integers')

  def f(x, b, *, s):
    i = lax.axis_index(AX)
    return jnp.where(b, x * s + i, lax.psum(x, AX)), b, x
  mapped = jit_distributed(f, devices(n), AX)
  import z3
  x = jsym.obj_array((n, 2), lambda i: z3.BitVec(f'x{list(i)}', 32))
  from vlib.sym import b_var
  b = jsym.obj_array((n,), lambda i: b_var(f'b{list(i)}'))
  got = jsym.call(lambda x, b: mapped(x, b, s=3), jsym.Leaf(x, np.int32),
                  jsym.Leaf(b, np.bool_))
  want = np.empty((n, 2), dtype=object)
  for d in range(n):
    for k in range(2):
      total = sum((x[e, k] for e in range(1, n)), x[0, k])
      want[d, k] = ops.ite(b[d], x[d, k] * 3 + d, total)

  def concrete(xs, bs):
    a, c, e = mapped(xs, bs, s=3)
    w = np.where(bs[:, None], xs * 3 + np.arange(n, dtype=np.int32)[:, None],
                 xs.sum(0, dtype=np.int32))
    if np.asarray(a).dtype != np.int32 or np.asarray(c).dtype != bool:
      return 'types change'
    if not (np.array_equal(a, w) and np.array_equal(c, bs)
            and np.array_equal(e, xs)):
      return f'{np.asarray(a).tolist()} instead of {w.tolist()}'
  h.smoke(lambda: concrete(h.nprng.integers(-99, 99, (n, 2)).astype(np.int32),
                           h.nprng.integers(0, 2, n).astype(bool)))
  from vlib.query import model_value, solve
  from vlib.sym import STATS, b_not, same, b_all
  from vlib.harness import Unreproduced
  g = [jsym.to_obj(v) for v in jax.tree_util.tree_leaves(got)]
  pairs = []
  for a, w in zip(g, (want, b, x)):
    if a.shape != w.shape:
      h.fail(f'shape {a.shape} instead of {w.shape}', dict(devices=n))
    pairs += list(zip(a.flat, w.flat))
  STATS.obligations += len(pairs)
  m = solve([b_not(b_all([same(a, w) for a, w in pairs]))])
  if m is not None:
    xs = np.array([[model_value(m, v) for v in r] for r in x]).astype(np.int32)
    bs = np.array([bool(model_value(m, v)) for v in b])
    d = concrete(xs, bs)
    if d is None:
      raise Unreproduced(f'{xs.tolist()} {bs.tolist()}')
    h.fail(d, dict(x=xs.tolist(), b=bs.tolist()))


def grids(h, *, sizes, axis):
  """A mesh of several axes, one or all of which are mapped."""
  h.func('jit_distributed.jit_distributed')
  h.bound('meshes of two and three axes, mapped over one, or several in any '
          'order, of them')
  names = ('i', 'j', 'k')[:len(sizes)]
  total = int(np.prod(sizes))
  d = jax.devices()
  if len(d) < total:
    raise Unsupported(f'{len(d)} devices')
  mesh = jax.sharding.Mesh(np.array(d[:total]).reshape(sizes), names)
  over = axis if isinstance(axis, tuple) else (axis,)
  n = int(np.prod([sizes[names.index(a)] for a in over]))

  def f(x, m, y=None, *, s):
    i = lax.axis_index(axis)
    out = x * s + m * lax.psum(x * (i + 1.0), axis)
    return {'o': out if y is None else out - y.sum(), 'm': (m + i * 1.0,)}
  mapped = jit_distributed(f, mesh, axis, static_argnames=('m', 's'))

  def want(x, y):
    i = np.arange(n)
    t = sum((x[k] * (k + 1.0) for k in range(1, n)), x[0] * 1.0)
    out = [x[k] * 2 + 3 * t - sum(list(y[k].reshape(-1))) for k in range(n)]
    return {'o': np.stack(out), 'm': (3.0 + i,)}

  def run(x, y):
    return mapped(x, 3, y, s=2)
  def short():
    x = h.nprng.normal(size=(n, 2))
    got = mapped(m=3, s=2, x=x)['o']
    w = want(x, np.zeros((n, 1)))['o']
    if np.shape(got) != w.shape or np.abs(np.asarray(got) - w).max() > 1e-9:
      return f'without the second array: {np.asarray(got).tolist()}'
  h.smoke(short)
  h.equal(run, want, [jsym.poly_vars('x', (n, 2)),
                      jsym.poly_vars('y', (n, 1, 2))], tol=1e-9,
          label=f'mesh {dict(zip(names, sizes))} over {axis}')


def callables(h, *, n):
  """Functions that are no plain functions, and what is done with the result."""
  h.func('jit_distributed.jit_distributed')
  h.assume('bound methods, partial applications, compiled and lambda '
           'functions; gradients through, compilation of, and mapping of '
           'the result')
  import functools
  mesh = devices(n)

  class Owner:
    factor = 3.0

    def method(self, x, y, *, s):
      return self.factor * x * s + lax.psum(y * y, AX)

    @staticmethod
    def alone(x, y, *, s):
      return 3.0 * x * s + lax.psum(y * y, AX)

    def __call__(self, x, y, *, s):
      return Owner.alone(x, y, s=s)
  x, y = (jsym.poly_vars(v, (n, 2)) for v in 'xy')

  def want(x, y):
    t = sum((y[k] * y[k] for k in range(1, n)), y[0] * y[0])
    return np.stack([6.0 * x[k] + t for k in range(n)])
  o = Owner()
  for name, f in (('method', o.method), ('static method', Owner.alone),
                  ('object', o),
                  ('lambda', lambda x, y, *, s: Owner.alone(x, y, s=s)),
                  ('compiled', jax.jit(Owner.alone, static_argnames='s'))):
    if name == 'object':
      # needs a name to wrap; a partial of it has a signature and no name
      f = functools.partial(f)
    g = jit_distributed(f, mesh, AX)
    h.equal(lambda x, y, g=g: g(x, y, s=2), want, [x, y], tol=1e-9, label=name)
  g = jit_distributed(functools.partial(Owner.alone, s=2), mesh, AX)
  h.equal(lambda x, y, g=g: g(x, y), want, [x, y], tol=1e-9, label='partial')
  g = jit_distributed(Owner.alone, mesh, AX)
  h.equal(lambda x, y: jax.jit(lambda x, y: 2.0 * g(x, y, s=2))(x, y),
          lambda x, y: 2.0 * want(x, y), [x, y], tol=1e-9, label='compiled')
  # the adjoint of the sum over devices reaches every device
  c = jsym.poly_vars('c', (n, 2))
  h.equal(lambda x, y, c: jax.grad(
      lambda x, y: (g(x, y, s=2) * c).sum(), argnums=(0, 1))(x, y),
          lambda x, y, c: (6.0 * c, 2.0 * y * np.stack([sum(
              (c[k] for k in range(1, n)), c[0])] * n)),
          [x, y, c], tol=1e-9, label='gradient')

  def fixed():
    # results which do not depend on the arguments; nothing; typed keys
    k = jit_distributed(lambda x, *, s: (3.5, None, {'a': s}), mesh, AX)(
        np.zeros((n, 1)), s=4)
    if k[1] is not None or not np.array_equal(k[0], np.full(n, 3.5)) or (
        not np.array_equal(k[2]['a'], np.full(n, 4))):
      return f'constant results {k}'
    keys = jax.random.split(jax.random.key(3), n)
    got = jit_distributed(lambda q: jax.random.normal(q, (2,)), mesh, AX)(keys)
    if not np.array_equal(got, np.stack([
        jax.random.normal(q, (2,)) for q in keys])):
      return 'keys'
    z = jit_distributed(lambda z: z * (1 + 2j), mesh, AX)(
        np.arange(n) * (1 - 1j))
    if not np.allclose(z, np.arange(n) * (3 + 1j)):
      return f'complex values {z}'
    e = jit_distributed(lambda z: z, mesh, AX)(np.zeros((n, 0, 3), np.int8))
    if e.shape != (n, 0, 3) or e.dtype != np.int8:
      return f'empty arrays {e.shape} {e.dtype}'
  h.smoke(fixed)


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for k, (sig, static, declared, calls) in enumerate(CASES):
    for n in ((1, 2, 3, 4, 8) if th else ((1, 2, 4) if k % 3 == 0 else
                                          (3,) if k % 3 == 1 else (2, 8))):
      out.append((f'({sig}) case {k} on {n}', mapping, dict(
          signature=sig, static=static, declared=declared, calls=calls, n=n)))
  for n in (1, 3, 4) if not th else (1, 2, 3, 4, 8):
    out.append((f'repeated on {n}', repeated, dict(n=n)))
    out.append((f'integers on {n}', integers, dict(n=n)))
    out.append((f'callables on {n}', callables, dict(n=n)))
  for sizes, axis in (((4, 2), 'i'), ((4, 2), 'j'), ((2, 3), ('i', 'j')),
                      ((2, 4), ('j', 'i')), ((2, 2, 2), 'k'),
                      ((2, 2, 2), ('i', 'k')), ((1, 3), 'i'), ((3, 1), 'i')):
    out.append((f'mesh {sizes} over {axis}', grids,
                dict(sizes=sizes, axis=axis)))
  return out
