"""C19: the crystal router delivers every message exactly once."""
import functools
import itertools

import numpy as np
import z3

from vlib import boot, dse, jsym, ops
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
from vlib.harness import Unreproduced
from vlib.jsym import Leaf
from vlib.query import model_value, solve
from vlib.sym import (Atom, STATS, U, Unsupported, b_all, b_and, b_any, b_atom,
                      b_not, b_or, int_to_u, to_z3, u_items)
from swirl_fem.communication import crystal_router as cr
from checks.c25 import patched

AX = 'i'
REAL_JIT = cr.jit_distributed


def mesh(d):
  if len(jax.devices()) < d:
    raise Unsupported('devices')
  return jax.sharding.Mesh(np.array(jax.devices()[:d]), (AX,))


class Chosen:
  """An element of a symbolic array; becoming a number settles it."""

  def __init__(self, u):
    self.u = u

  def __int__(self):
    if not isinstance(self.u, U):
      return int(self.u)
    items = sorted(self.u.d.items())
    for v, g in items[:-1]:
      if dse.branch(to_z3(g)):
        return int(v)
    dse.CUR.add(to_z3(items[-1][1]))
    return int(items[-1][0])

  __index__ = __int__

  def _cmp(op):                   # pylint: disable=no-self-argument
    def f(self, o):
      return getattr(int(self), op)(int(o))
    return f
  __gt__, __ge__, __lt__, __le__, __eq__, __ne__ = map(_cmp, (
      '__gt__', '__ge__', '__lt__', '__le__', '__eq__', '__ne__'))
  __hash__ = None

  def item(self):
    return int(self)


class Arr(np.ndarray):
  """Object array that remembers the type it stands for."""

  def __new__(cls, a, dt):
    x = np.asarray(a).astype(object) if np.asarray(
        a).dtype != object else np.asarray(a)
    x = x.view(cls)
    x.dt = np.dtype(dt)
    return x

  def __array_finalize__(self, o):
    self.dt = getattr(o, 'dt', None)

  def __getitem__(self, k):
    r = super().__getitem__(k)
    return r if isinstance(r, np.ndarray) else Chosen(r)


def spec(x):
  if isinstance(x, Arr):
    return jax.ShapeDtypeStruct(x.shape, x.dt)
  x = np.asarray(x)
  return jax.ShapeDtypeStruct(x.shape, x.dtype)


def symbolic_jit(f, mesh, axis_name, **kw):
  """jit_distributed whose result also takes symbolic arrays."""
  real = REAL_JIT(f, mesh, axis_name, **kw)

  @functools.wraps(f if not isinstance(f, functools.partial) else f.func)
  def g(*args, **kwargs):
    leaves, tree = jax.tree_util.tree_flatten(args)
    static = kwargs
    h = lambda *a: real(*jax.tree_util.tree_unflatten(tree, a), **static)
    shapes = jax.eval_shape(h, *[spec(x) for x in leaves])
    out = jsym.call(h, *[Leaf(np.asarray(x), x.dt) if isinstance(x, Arr) else x
                         for x in leaves])
    flat, t2 = jax.tree_util.tree_flatten(shapes)
    got = jax.tree_util.tree_leaves(out, is_leaf=lambda v: v is None)
    return jax.tree_util.tree_unflatten(
        t2, [Arr(a, s.dtype) for a, s in zip(got, flat)])
  return g


def route(d, n, data, target, source):
  """Runs the real router on symbolic arrays."""
  with patched((cr, 'jit_distributed', symbolic_jit)):
    router = cr.crystal_router_setup(mesh(d), AX)
    return router(n, data, target, return_source=source)


def rows(x, d):
  return [np.asarray(x)[p] for p in range(d)]


def judge(d, m, n, data, target, out, source):
  """None or what a concrete run has wrong; data: list of (d, m, ..) leaves."""
  n_out, leaves = np.asarray(out[0]), [np.asarray(a) for a in
                                       jax.tree_util.tree_leaves(out[1])]
  src = np.asarray(out[2]) if source else None
  if n_out.shape != (d,):
    return f'lengths of shape {n_out.shape}'
  for p in range(d):
    want = sorted((tuple(tuple(np.ravel(a[q, j]).tolist()) for a in data),)
                  + ((q,) if source else ())
                  for q in range(d) for j in range(n[q]) if target[q, j] == p)
    if any(a.shape[1] < n_out[p] for a in leaves):
      return f'device {p}: length {n_out[p]} does not fit'
    got = sorted((tuple(tuple(np.ravel(a[p, k]).tolist()) for a in leaves),)
                 + ((int(src[p, k]),) if source else ())
                 for k in range(n_out[p]))
    if got != want:
      return f'device {p} receives {got} instead of {want}'


def concrete(d, m, n, target, source, leaves):
  data = [np.arange(1, d * m + 1, dtype=np.int32).reshape(d, m),
          -np.arange(1, 2 * d * m + 1).reshape(d, m, 2).astype(np.float32)]
  data = data[:leaves]
  router = cr.crystal_router_setup(mesh(d), AX)
  out = router(n.astype(np.int32), {'a': data[0]} if leaves == 1 else data,
               target.astype(np.int32), return_source=source)
  bad = judge(d, m, n, data, target, out, source)
  if bad or not source:
    return bad
  back = router(*out)
  n2 = np.asarray(back[0])
  got = [np.asarray(a) for a in jax.tree_util.tree_leaves(back[1])]
  for p in range(d):
    key = lambda arrs, tgt, k: (tuple(tuple(np.ravel(a[p, k]).tolist())
                                      for a in arrs), int(tgt[p, k]))
    want = sorted(key(data, target, j) for j in range(n[p]))
    have = sorted(key(got, np.asarray(back[2]), j) for j in range(n2[p]))
    if want != have:
      return f'routing back gives device {p} {have} instead of {want}'


def delivery(h, *, d, m, source=True, leaves=2, back=False,
             least=0, senders=None):
  """All lengths and targets at once."""
  h.func('crystal_router_setup', '_crystal_router_flat',
         '_crystal_router_loop', '_crystal_router_stage', 'CrystalData',
         'SemiTracedScalar', 'jit_distributed')
  h.bound('1 to 8 devices; any number of messages and targets for 1 to 5 '
          'devices of up to 3 messages, up to 4 senders among 6 to 8 devices')
  senders = range(d) if senders is None else senders
  zn = [z3.Int(f'n{p}') for p in range(d)]
  zt = [[z3.Int(f't{p}_{j}') for j in range(m)] for p in range(d)]
  cons = []
  for p in range(d):
    cons += [zn[p] >= least, zn[p] <= m] if p in senders else [zn[p] == 0]
    for j in range(m):
      cons += [zt[p][j] >= -1, zt[p][j] <= d, z3.Implies(
          j < zn[p], z3.And(zt[p][j] >= 0, zt[p][j] < d))]
  n = Arr(jsym.obj_array((d,), lambda i: int_to_u(zn[i[0]], range(least, m + 1))
                         if least < m and i[0] in senders else
                         m if i[0] in senders else 0), np.int32)
  t = Arr(jsym.obj_array((d, m), lambda i: int_to_u(
      zt[i[0]][i[1]], range(-1, d + 1)) if i[0] in senders else -1), np.int32)
  a = Arr(jsym.obj_array((d, m), lambda i: Atom(f'a{i[0]}_{i[1]}')), np.int32)
  b = Arr(jsym.obj_array((d, m, 2), lambda i: Atom(
      f'b{i[0]}_{i[1]}_{i[2]}')), np.float32)
  data = [a, b][:leaves]

  def sample():
    nn = h.nprng.integers(least, m + 1, d)
    nn[[p for p in range(d) if p not in senders]] = 0
    tt = h.nprng.integers(0, d, (d, m))
    if h.nprng.integers(0, 2):     # crowd one device
      tt[:] = h.nprng.integers(0, d)
    tt[np.arange(m)[None] >= nn[:, None]] = -1
    return concrete(d, m, nn, tt, source, leaves)
  h.smoke(sample)

  def run(path):
    out = route(d, n, {'a': a} if leaves == 1 else data, t, source)
    if back:
      out2 = route(d, out[0], out[1], out[2], True)
      check(path, out2, True)
    else:
      check(path, out, False)

  def check(path, out, returned):
    got = [np.asarray(x) for x in jax.tree_util.tree_leaves(
        out[1], is_leaf=lambda v: isinstance(v, Arr))]
    no = np.asarray(out[0])
    src = np.asarray(out[2]) if source else None
    claims = []
    if no.shape != (d,) or len(got) != leaves or any(
        x.ndim < 2 or x.shape[0] != d or x.shape[1] != got[0].shape[1]
        for x in got):
      raise Unsupported('shapes of the result')
    size = got[0].shape[1]
    is_ = lambda x, v: b_any([g for w, g in u_items(x) if w is v or (
        not isinstance(v, Atom) and not isinstance(w, Atom) and w == v)])
    for p in range(d):
      live = [b_any([g for v, g in u_items(no[p]) if v > k])
              for k in range(size)]
      claims.append(b_any([g for v, g in u_items(no[p]) if v <= size]))
      expected = []
      for q in range(d):
        for j in range(m):
          valid = b_any([g for v, g in u_items(np.asarray(n)[q]) if v > j])
          if returned:
            due = valid if q == p else False
          else:
            due = b_and(valid, is_(np.asarray(t)[q, j], p))
          expected.append(due)
          at = []
          for k in range(size):
            here = b_and(live[k], is_(got[0][p, k], np.asarray(a)[q, j]))
            at.append(here)
            if here is False:
              continue
            also = []
            if leaves == 2:
              also += [is_(got[1][p, k, c], np.asarray(b)[q, j, c])
                       for c in (0, 1)]
            if source and not returned:
              also.append(is_(src[p, k], q))
            if returned:
              # the second source is the original target
              also += [b_or(b_not(is_(src[p, k], v)),
                            is_(np.asarray(t)[q, j], v)) for v in range(d)]
              also.append(b_any([is_(src[p, k], v) for v in range(d)]))
            claims.append(b_or(b_not(here), b_all(also)))
          if due is False:
            claims += [b_not(x) for x in at]
            continue
          claims.append(b_or(b_not(due), b_any(at)))
          claims += [b_or(b_not(x), due) for x in at]
          claims += [b_not(b_and(x, y)) for x, y in itertools.combinations(
              at, 2)]
      # the length counts the arrivals
      total = z3.Sum([z3.If(to_z3(e), 1, 0) for e in expected])
      length = z3.Sum([z3.If(to_z3(g), int(v), 0) for v, g in u_items(no[p])])
      claims.append(b_atom(total == length))
    claims = [c for c in claims if c is not True]
    STATS.obligations += len(claims)
    mod = path.proves(z3.And(*[to_z3(c) for c in claims]))
    if mod is None:
      return
    nn = np.array([mod.eval(x, True).as_long() for x in zn])
    tt = np.array([[mod.eval(x, True).as_long() for x in r] for r in zt])
    bad = concrete(d, m, nn, tt, source, leaves)
    where = dict(devices=d, lengths=nn.tolist(), targets=tt.tolist())
    if bad is None:
      raise Unreproduced(str(where))
    h.fail(bad, where)
  k = dse.explore(run, cons)
  h.sample(devices=d, length=m, source=source, paths=k)


def many(h, *, d, m, crowd):
  """Long lists and other types of data, on concrete inputs."""
  h.func('crystal_router_setup')
  h.bound('concrete lists of up to 700 messages per device, data of types '
          'bool, int8, uint8, float16, float64, with 0-3 further dimensions')
  rng = np.random.default_rng(d * m)

  def one():
    n = rng.integers(m // 2, m + 1, d)
    t = rng.integers(0, d, (d, m))
    if crowd:
      t[rng.uniform(size=(d, m)) < 0.8] = d - 1
    t[np.arange(m)[None] >= n[:, None]] = rng.integers(-5, d + 5)
    data = {'b': rng.uniform(size=(d, m)) < 0.5,
            'i': [rng.integers(-128, 128, (d, m, 1, 2)).astype(np.int8),
                  rng.integers(0, 256, (d, m)).astype(np.uint8)],
            'h': rng.normal(size=(d, m, 2, 1, 2)).astype(np.float16),
            'd': rng.normal(size=(d, m)), 'e': np.zeros((d, m, 0)),
            'k': np.arange(d * m, dtype=np.int32).reshape(d, m)}
    leaves = jax.tree_util.tree_leaves(data)
    for source in (True, False)[:1 + (d < 5)]:
      out = cr.crystal_router_setup(mesh(d), AX)(
          n.astype(np.int32), data, t.astype(np.int32), return_source=source)
      bad = judge(d, m, n, leaves, t, out, source)
      if bad:
        return bad[:300]
      got = jax.tree_util.tree_leaves(out[1])
      if [g.dtype for g in got] != [x.dtype for x in leaves]:
        return f'types {[g.dtype for g in got]}'
  h.smoke(one, 1)
  solve([False])


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(d, m, **k):
    out.append((f'{d} devices, up to {m} messages each {k}', delivery,
                dict(d=d, m=m, **k)))
  add(1, 2)
  add(1, 3, source=False)
  add(2, 2)
  add(2, 3, leaves=1)
  add(2, 2, back=True)
  add(3, 2)
  add(3, 1, back=True)
  add(3, 2, source=False, leaves=1)
  add(4, 1)
  add(5, 1, leaves=1)
  add(6, 1, leaves=1, senders=(0, 2, 3, 5))
  add(6, 2, leaves=1, senders=(1, 4))
  add(7, 1, leaves=1, senders=(0, 3, 6))
  add(7, 1, leaves=1, senders=(1, 2, 4, 5))
  add(8, 1, leaves=1, senders=(0, 3, 6, 7))
  add(8, 2, leaves=1, senders=(2, 5))
  add(4, 2, leaves=1, senders=(0, 2, 3))
  add(3, 3, leaves=1, senders=(0, 2))
  for d, m, crowd in [(1, 300, False), (2, 700, True), (3, 150, False),
                      (5, 300, True)] + th * [(7, 40, True), (8, 200, True)]:
    out.append((f'many {d} devices, {m} messages', many,
                dict(d=d, m=m, crowd=crowd)))
  return out
