"""C05: exchange adds up all copies of a node and nothing else."""
import numpy as np

from vlib import boot, dse, jsym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
from vlib.harness import compare
from vlib.jsym import obj_array
from vlib.sym import POISON, Poly
from swirl_fem.core import gather_scatter as gs


def oracle(ids, u):
  """Sum of all copies, by comparing every pair of ids."""
  flat, v = ids.reshape(-1), u.reshape(-1)
  out = np.empty(len(flat), dtype=object)
  for i in range(len(flat)):
    if flat[i] == gs.SENTINEL:
      out[i] = v[i]
      continue
    s = 0
    for j in range(len(flat)):
      if flat[i] == flat[j]:
        s = s + v[j]
    out[i] = s
  return out.reshape(u.shape)


def duplicates(ids):
  for row in ids:
    for i in range(len(row)):
      for j in range(i):
        if row[i] == row[j] and not row[i] == gs.SENTINEL:
          return True
  return False


def real_exchange(ids, u):
  """The real code on concrete inputs, partitions mapped over devices."""
  import jax
  g, q = gs.get_exchange_indices(ids)
  if ids.ndim == 1:
    return np.asarray(jax.jit(lambda x: gs.exchange(x, g, q))(u))
  return np.asarray(jax.pmap(
      lambda x, gi: gs.exchange(x, gi, q, axis_name='p'), axis_name='p')(u, g))


def pattern(h, *, shape, poison, first=None):
  h.func('gather_scatter.get_exchange_indices', 'gather_scatter.exchange',
         'gather_scatter._get_exchange_indices_partitioned',
         'gather_scatter._get_exchange_indices_unpartitioned')
  h.bound('all id patterns of at most 6 local nodes without partitions, and of '
          '2x2, 2x3, 3x2, 1x4 (partitions x nodes), any ids up to their order '
          'and equalities, including padding; all nodal values')
  h.assume('ids of real nodes are non-negative; a node repeated inside one '
           'partition of a partitioned mesh is rejected (documented limit)')
  n = int(np.prod(shape))
  ids, cons = dse.ints('id', shape, -1, n)
  if len(shape) == 1:
    # padding exists only in partitioned layouts
    cons += [x.e >= 0 for x in ids.flat]
  if first is not None:
    a, b = ids.reshape(-1)[:2]
    cons.append({'<': a.e < b.e, '=': a.e == b.e, '>': a.e > b.e}[first])
  U = obj_array(shape, lambda i: Poly.var('u' + str(i)))
  count = [0]

  def check(path):
    count[0] += 1
    try:
      g, q = gs.get_exchange_indices(ids)
    except NotImplementedError:
      if len(shape) == 2 and duplicates(ids):
        return
      v = dse.value(path.model(), ids)
      h.fail('the id pattern is rejected', {'ids': v})
    u = U.copy()
    for i in np.ndindex(*shape):
      if poison and ids[i] == gs.SENTINEL:
        u[i] = POISON
    if len(shape) == 2 and duplicates(ids):
      v = dse.value(path.model(), ids)
      try:
        gs.get_exchange_indices(v)
      except NotImplementedError:
        return
      # no longer rejected: then it has to be right, too
    if len(shape) == 1:
      got = jsym.call(lambda x: gs.exchange(x, g, q), u)
    else:
      got = jsym.call_lanes(
          lambda x, gi: gs.exchange(x, gi, q, axis_name='p'), 'p', shape[0],
          (u, g))
    want = oracle(ids, u)
    v = dse.value(path.model(), ids)
    gl, wl = [], []
    for i in np.ndindex(*shape):
      if int(v[i]) == gs.SENTINEL and poison:
        continue
      gl.append(got[i])
      wl.append(want[i])

    def run(env):
      c = np.array([env.get('u' + str(i), 0.5)
                    for i in np.ndindex(*shape)]).reshape(shape)
      got = real_exchange(v, c)
      w = np.asarray(oracle(v, c), dtype=np.float64)
      d = compare([got], [w], 1e-6)
      return d and f'ids {v.tolist()}: {d}'

    h.close([np.array(gl + [0], dtype=object)],
            [np.array(wl + [0], dtype=object)], run, tol=1e-9,
            label=f'{len(gl)} stored values')
    if count[0] <= 2:
      h.smoke(lambda v=v: real(v))

  def real(v):
    c = h.nprng.uniform(-1, 1, size=shape)
    return compare([real_exchange(v, c)],
                   [np.asarray(oracle(v, c), dtype=np.float64)], 1e-6)

  # a concrete layout with repeats, padding and singles, whatever happens above
  if len(shape) == 1:
    fixed = np.array([k % max(1, n - 2) for k in range(n)])
  else:
    fixed = np.full(shape, -1)
    for p in range(shape[0]):
      fixed[p, :max(1, shape[1] - (p % 2))] = (
          np.arange(max(1, shape[1] - (p % 2))) + p)
  h.smoke(lambda: real(fixed))
  dse.explore(check, cons, budget=600)
  h.sample(shape=shape, paths=count[0], padding='non-finite' if poison else
           'symbolic')


def large(h, *, shape, copies):
  """A large fixed layout with all values symbolic."""
  h.func('gather_scatter.get_exchange_indices', 'gather_scatter.exchange')
  h.bound('fixed random layouts of up to 400 stored nodes, all nodal values')
  n = int(np.prod(shape))
  if len(shape) == 1:
    ids = h.nprng.integers(0, max(1, n // copies), size=shape)
  else:
    ids = np.stack([h.nprng.permutation(n // copies)[:shape[1]]
                    for _ in range(shape[0])])
    ids[1::2, -3:] = gs.SENTINEL
  U = obj_array(shape, lambda i: Poly.var('u' + str(i)))

  def real(c=None):
    c = h.nprng.uniform(-1, 1, size=shape) if c is None else c
    return compare([real_exchange(ids, c)],
                   [np.asarray(oracle(ids, c), dtype=np.float64)], 1e-6)
  h.smoke(real)
  g, q = gs.get_exchange_indices(ids)
  if len(shape) == 1:
    got = jsym.call(lambda x: gs.exchange(x, g, q), U)
  else:
    got = jsym.call_lanes(lambda x, gi: gs.exchange(x, gi, q, axis_name='p'),
                          'p', shape[0], (U, g))
  h.close([got], [oracle(ids, U)], lambda env: real(), tol=1e-9,
          label=f'{n} stored values')


def dtypes(h, *, shape):
  """Whole numbers and complex values are added without loss."""
  h.func('gather_scatter.exchange')
  h.bound('integer and complex nodal values on one fixed layout')
  n = int(np.prod(shape))
  ids = np.arange(n).reshape(shape) % max(1, (3 * n) // 4)
  if len(shape) == 2:
    ids[-1, -1] = gs.SENTINEL
  real_ = obj_array(shape, lambda i: Poly.var('a' + str(i)))
  g, q = gs.get_exchange_indices(ids)

  def run(u):
    if len(shape) == 1:
      return jsym.call(lambda x: gs.exchange(x, g, q), u)
    return jsym.call_lanes(lambda x, gi: gs.exchange(x, gi, q, axis_name='p'),
                           'p', shape[0], (u, g))

  def whole():
    u = np.full(shape, 2 ** 24 + 1, dtype=np.int32) + 2 * np.arange(
        n, dtype=np.int32).reshape(shape)
    got = real_exchange(ids, u)
    want = np.asarray(oracle(ids, u.astype(object)), dtype=np.int64)
    if np.issubdtype(got.dtype, np.integer) and (got == want).all():
      return None
    return f'ids {ids.tolist()}: {u.tolist()} -> {got.tolist()}, not {want}'

  def cplx(c=None):
    c = c or {}
    u = np.array([c.get('a' + str(i), 0.25 + i[-1]) + 1j *
                  c.get('b' + str(i), 1.5 - 2 * i[-1])
                  for i in np.ndindex(*shape)]).reshape(shape)
    got = real_exchange(ids, u)
    want = np.asarray(oracle(ids, u.astype(object)), dtype=np.complex128)
    return (compare([got.real], [want.real], 1e-6) or
            compare([got.imag], [want.imag], 1e-6))

  h.smoke(whole)
  h.smoke(cplx)
  got = run(real_)
  h.close([got], [oracle(ids, real_)], cplx, tol=1e-9, label='real parts')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for n in range(1, (7 if th else 6) + 1):
    if n < 5:
      out.append((f'unpartitioned {n} nodes', pattern,
                  dict(shape=(n,), poison=False)))
    else:
      for f in '<=>':
        out.append((f'unpartitioned {n} nodes {f}', pattern,
                    dict(shape=(n,), poison=False, first=f)))
  shapes = [(1, 2), (2, 1), (2, 2), (3, 1), (4, 1), (1, 3), (2, 3), (3, 2)]
  if th:
    shapes += [(5, 1), (1, 4), (2, 4), (4, 2)]
  out.append(('dtypes unpartitioned', dtypes, dict(shape=(9,))))
  out.append(('dtypes partitioned', dtypes, dict(shape=(2, 5))))
  out.append(('large unpartitioned', large, dict(shape=(400,), copies=3)))
  out.append(('large partitioned', large, dict(shape=(4, 90), copies=3)))
  for s in shapes:
    for poison in (False, True):
      if s[0] * s[1] < 5:
        out.append((f'partitions {s} poison={poison}', pattern,
                    dict(shape=s, poison=poison)))
      elif poison:
        for f in '<=>':
          out.append((f'partitions {s} {f}', pattern,
                      dict(shape=s, poison=poison, first=f)))
  return out
