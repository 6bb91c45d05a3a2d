"""C18: parallel scans and reductions equal the sequential fold."""
import numpy as np
import z3

from vlib import boot, jsym, ops
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import Unreproduced
from vlib.jsym import Leaf, obj_array
from vlib.query import model_value, solve
from vlib.sym import Poly, STATS, b_all, b_not, b_var, real_var, same
from swirl_fem.communication import pscan as ps

OPS = {
    'add': (jnp.add, ops.add, np.add), 'mul': (jnp.multiply, ops.mul, np.multiply),
    'max': (jnp.maximum, ops.maximum, np.maximum),
    'min': (jnp.minimum, ops.minimum, np.minimum),
    'and': (jnp.bitwise_and, ops.land, np.bitwise_and),
    'or': (jnp.bitwise_or, ops.lor, np.bitwise_or),
    'xor': (jnp.bitwise_xor, ops.lxor, np.bitwise_xor),
}


def unit(op, dt):
  """The identity of the operation, from its definition."""
  dt = np.dtype(dt)
  if op == 'add' or op in ('or', 'xor'):
    return dt.type(0).item()
  if op == 'mul':
    return dt.type(1).item()
  if op == 'and':
    return True if dt == bool else (-1 if dt.kind == 'i' else
                                    int(np.iinfo(dt).max))
  lo, hi = ((False, True) if dt == bool else (-np.inf, np.inf)
            if dt.kind not in 'iu' else (int(np.iinfo(dt).min),
                                    int(np.iinfo(dt).max)))
  return lo if op == 'max' else hi


def variables(name, shape, dt, op):
  dt = np.dtype(dt)
  def mk(i):
    n = name + str(list(i))
    if dt == bool:
      return b_var(n)
    if dt.kind == 'f':
      if op in ('max', 'min'):
        return z3.FP(n, z3.Float32() if dt == np.float32 else z3.Float16())
      return Poly.var(n)
    return z3.BitVec(n, 8 * dt.itemsize)
  return obj_array(shape, mk)


def concrete(rng, shape, dt):
  dt = np.dtype(dt)
  if dt == bool:
    return rng.integers(0, 2, shape).astype(bool)
  if dt.kind == 'f':
    x = rng.uniform(-2, 2, shape).astype(dt)
    return np.where(rng.uniform(size=shape) < 0.15,
                    rng.choice([np.inf, -np.inf], size=shape), x).astype(dt)
  ii = np.iinfo(dt)
  return rng.integers(ii.min, int(ii.max) + 1, shape, dtype=np.int64
                      if dt.itemsize < 8 else dt).astype(dt)


def fold(f, xs, first):
  r = first
  for x in xs:
    r = f(r, x)
  return r


def np_fold(op, xs, dt):
  """Oracle on concrete arrays (leading axis is the device)."""
  f = OPS[op][2]
  with np.errstate(all='ignore'):
    scans, r = [], np.full(xs.shape[1:], unit(op, dt), dtype=dt)
    for x in xs:
      scans.append(r)
      r = f(r, x).astype(dt)
  return np.stack(scans), np.stack([r] * len(xs))


def scan_harness(h, *, op, n, layout, mode):
  """layout: list of (dtype, shape) leaves of the data."""
  h.func('pscan.pscan' if mode != 'preduce' else 'pscan.preduce',
         'pscan._fanin_fanout', 'pscan._fanin_fanout_flat',
         'SemiTracedScalar.where', 'SemiTracedScalar.axis_index')
  h.bound('1..17 devices; leaves of rank 0..2; float values as reals for sums '
          'and products and as IEEE floats (with infinities) for max and min; '
          'machine integers and booleans bit-precisely')
  h.assume('sums and products of floats up to rounding (as real polynomials)')
  jop, sop, _ = OPS[op]
  names = [f'k{i}' for i in range(len(layout))]

  def f(tree):
    if mode == 'preduce':
      return ps.preduce(tree, jop, 'i')
    return ps.pscan(tree, jop, 'i', reduction=mode == 'both')

  def oracle_np(tree):
    sc, rd = {}, {}
    for k, (dt, _) in zip(names, layout):
      sc[k], rd[k] = np_fold(op, tree[k], dt)
    return rd if mode == 'preduce' else (sc, rd) if mode == 'both' else sc

  def run(tree):
    got = jax.tree.map(np.asarray, jax.pmap(f, axis_name='i')(tree))
    want = oracle_np(tree)
    gl, gt = jax.tree_util.tree_flatten(got)
    wl, wt = jax.tree_util.tree_flatten(want)
    if gt != wt:
      return f'result structure {gt} instead of {wt}'
    for g, w in zip(gl, wl):
      if g.shape != w.shape or g.dtype != w.dtype:
        return f'{g.shape} {g.dtype} instead of {w.shape} {w.dtype}'
      ok = (np.isclose(g, w, rtol=1e-4, atol=1e-4, equal_nan=True)
            if g.dtype.kind == 'f' else g == w)
      if not np.all(ok):
        return f'{op} on {n} devices: {g.tolist()} instead of {w.tolist()}'
    return None

  def conc():
    return {k: concrete(h.nprng, (n,) + s, dt)
            for k, (dt, s) in zip(names, layout)}
  h.smoke(lambda: run(conc()))

  tree = {k: variables(k, (n,) + s, dt, op)
          for k, (dt, s) in zip(names, layout)}
  args = {k: Leaf(tree[k], np.dtype(dt)) for k, (dt, _) in zip(names, layout)}
  got = jsym.call_lanes(f, 'i', n, (args,))
  goals = []
  sc, rd = {}, {}
  for k, (dt, s) in zip(names, layout):
    u = unit(op, dt)
    a, b = np.empty((n,) + s, dtype=object), np.empty((n,) + s, dtype=object)
    for i in np.ndindex(*s):
      col = [tree[k][(d,) + i] for d in range(n)]
      if np.dtype(dt) == bool and op in ('max', 'min'):
        g = (ops.lor if op == 'max' else ops.land)
      elif op == 'mul' and np.dtype(dt) == bool:
        g = ops.land
      elif op == 'add' and np.dtype(dt) == bool:
        g = ops.lor
      else:
        def g(x, y, dt=np.dtype(dt)):
          f = (jsym._unsigned(sop) if dt.kind == 'u' and op in ('max', 'min')
               else sop)
          r = f(x, y)
          return ops.wrap(r, dt) if dt.kind in 'iu' else r
      total = fold(g, col[1:], col[0])
      for d in range(n):
        a[(d,) + i] = u if d == 0 else fold(g, col[1:d], col[0])
        b[(d,) + i] = total
    sc[k], rd[k] = a, b
  want = rd if mode == 'preduce' else (sc, rd) if mode == 'both' else sc
  gl, gt = jax.tree_util.tree_flatten(got)
  wl, wt = jax.tree_util.tree_flatten(want)

  def replay(env_tree, what):
    d = run(env_tree)
    for _ in range(6):
      if d is not None:
        break
      env_tree = conc()
      d = run(env_tree)
    if d is None:
      raise Unreproduced(f'{h.name}: {what}')
    h.fail(f'{what}: {d}', env_tree)

  if gt != wt:
    replay(conc(), 'result structure')
  for g, w in zip(gl, wl):
    g = jsym.to_obj(g)
    if g.shape != w.shape:
      replay(conc(), f'shape {g.shape} instead of {w.shape}')
    for i in np.ndindex(*w.shape):
      goals.append((i, same(g[i], w[i])))
  STATS.obligations += len(goals)
  m = solve([b_not(b_all([g for _, g in goals]))])
  if m is not None:
    env = {}
    for k, (dt, s) in zip(names, layout):
      v = np.empty((n,) + s, dtype=dt)
      for i in np.ndindex(*v.shape):
        try:
          x = model_value(m, tree[k][i])
          if np.dtype(dt).kind == 'u':
            x = int(x) % (int(np.iinfo(dt).max) + 1)
          v[i] = x
        except (OverflowError, ValueError):
          v[i] = concrete(h.nprng, (), dt)
      env[k] = v
    replay(env, 'counterexample')
  h.sample(op=op, devices=n, layout=str(layout), mode=mode,
           components=len(goals))


def wide(h, *, n):
  """More members of the axis than there are devices: a mapped axis of vmap."""
  h.func('pscan.pscan', 'pscan.preduce', 'pscan._fanin_fanout_flat')
  h.bound('axes of up to 130 members, mapped by vmap, all real and integer '
          'values; up to 513 members and the smaller floating point types '
          'concretely')
  x = jsym.poly_vars('x', (n,))

  def run(x):
    sc, rd = jax.vmap(lambda v: ps.pscan(v, jnp.add, 'i', reduction=True),
                      axis_name='i')(x)
    alone = jax.vmap(lambda v: ps.pscan(v, jnp.add, 'i'), axis_name='i')(x)
    return sc, rd, alone

  def want(x):
    x = np.asarray(x)
    acc, sc = 0, []
    for v in x:
      sc.append(acc)
      acc = acc + v
    return (np.array(sc, dtype=x.dtype), np.array([acc] * n, dtype=x.dtype),
            np.array(sc, dtype=x.dtype))
  h.equal(run, want, [x], tol=1e-4, label='sums')
  # the truth values are decided as such
  b = obj_array((n,), lambda i: b_var(f'b{list(i)}'))
  for op, f in (('and', ops.land), ('xor', ops.lxor)):
    got = jsym.call(lambda b: jax.vmap(lambda v: ps.preduce(
        v, OPS[op][0], 'i'), axis_name='i')(b), Leaf(b, np.bool_))
    got = jsym.to_obj(got)
    total = fold(f, list(b[1:]), b[0])
    STATS.obligations += 1
    m = solve([b_not(b_all([same(g, total) for g in got]))])
    if m is not None:
      v = np.array([bool(model_value(m, e)) for e in b])
      d = wide_run(n, op, v)
      if d is None:
        raise Unreproduced(f'{h.name} {op}')
      h.fail(d, dict(n=n, values=v.tolist()))


def wide_run(n, op, v):
  """Scan and reductions over the leading axis of v, judged."""
  jop = OPS[op][0]
  with np.errstate(all='ignore'):
    sc, rd = np_fold(op, v, v.dtype)
  both, alone, red = jax.jit(jax.vmap(lambda a: (
      ps.pscan(a, jop, 'i', reduction=True), ps.pscan(a, jop, 'i'),
      ps.preduce(a, jop, 'i')), axis_name='i'))(v)
  for what, g, w in (('scan', both[0], sc), ('reduction', both[1], rd),
                     ('scan alone', alone, sc), ('preduce', red, rd)):
    g = np.asarray(g)
    if op in ('add', 'mul') and v.dtype == bool:
      w = w.astype(bool)
    if g.shape != w.shape or g.dtype != w.dtype:
      return f'{what} {op}: {g.shape} {g.dtype} instead of {w.shape} {w.dtype}'
    ok = g == w
    if v.dtype.kind not in 'iub' and op in ('add', 'mul'):
      tol = 40 * float(jnp.finfo(v.dtype).eps)
      ok = np.isclose(g.astype(np.float64), w.astype(np.float64), rtol=tol,
                      atol=tol)
    if not np.all(ok):
      i = np.argwhere(~ok)[0]
      return (f'{what} {op} of {n} {v.dtype} members: entry {i.tolist()} is '
              f'{g[tuple(i)]} instead of {w[tuple(i)]}')
  return None


def members(h):
  """Concrete runs: many members, other types."""
  h.func('pscan.pscan', 'pscan.preduce')
  rng = np.random.default_rng(4)
  for n, some in ((19, OPS), (33, ('add', 'min')), (64, ('xor', 'mul')),
                  (100, ('or', 'max')), (257, ('add', 'and')), (513, ('max',))):
    for op in some:
      h.smoke(lambda n=n, op=op: wide_run(n, op, concrete(
          rng, (n, 2), np.int32)), 1)
  for kind in (np.int16, np.uint16, np.uint32, np.float16, jnp.bfloat16):
    for op in OPS:
      dt = np.dtype(kind)
      if dt.kind not in 'iu' and op in ('and', 'or', 'xor'):
        continue
      for n in (3, 6):
        def one(n=n, op=op, dt=dt):
          if dt.kind in 'iu':
            return wide_run(n, op, concrete(rng, (n, 3), dt))
          # exact in the type, so the order of the terms does not matter
          v = (rng.choice([-1, 1, 2, .5], (n, 3)) if op == 'mul'
               else rng.integers(-3, 4, (n, 3)))
          v = v.astype(dt)
          if op in ('max', 'min'):
            v[0] = v[0] * dt.type(1000)
          return wide_run(n, op, v)
        h.smoke(one, 1)
  # an axis of a name which is no string, and a result used further on
  def named():
    x = np.arange(12, dtype=np.int32).reshape(6, 2)
    for name in ('axis', frozenset('q')):
      g = jax.vmap(lambda v, name=name: ps.pscan(v, jnp.add, name) + v,
                   axis_name=name)(x)
      if not np.array_equal(g, np.cumsum(x, 0)):
        return f'axis {name}: {np.asarray(g).tolist()}'
  def inner():
    # a second mapped axis does not mix with the first
    x = np.arange(30, dtype=np.int32).reshape(5, 3, 2)
    g = jax.vmap(jax.vmap(lambda v: ps.pscan(v, jnp.add, 'o', reduction=True),
                          axis_name='i'), axis_name='o')(x)
    c = np.cumsum(x, 0)
    if not (np.array_equal(g[0], c - x) and np.array_equal(
        g[1], np.broadcast_to(c[-1], x.shape))):
      return 'nested axes, outer scan'
    g = jax.vmap(jax.vmap(lambda v: ps.pscan(v, jnp.maximum, 'i'),
                          axis_name='i'), axis_name='o')(x)
    w = np.full_like(x, np.iinfo(np.int32).min)
    w[:, 1:] = np.maximum.accumulate(x, 1)[:, :-1]
    if not np.array_equal(g, w):
      return 'nested axes, inner scan'
  def trees():
    # many leaves, nesting, nothing at all
    r = np.random.default_rng(1)
    def leaf(*s):
      return r.integers(-50, 50, (6,) + s).astype(np.int32)
    tree = {'a': [leaf() for _ in range(9)], 'b': (leaf(2), None, leaf(1, 3)),
            'c': {}, 'd': leaf(0)}
    for op, f in ((jnp.add, np.cumsum), (jnp.minimum, np.minimum.accumulate),
                  (jnp.multiply, np.cumprod)):
      def run(t, op=op):
        return ps.pscan(t, op, 'i', reduction=True), ps.pscan(
            t, op, 'i'), ps.preduce(t, op, 'i')
      (sc, rd), alone, red = jax.jit(jax.vmap(run, axis_name='i'))(tree)
      u = {jnp.add: 0, jnp.multiply: 1}.get(op, np.iinfo(np.int32).max)
      def fold_(x, f=f, u=u):
        c = f(x, axis=0).astype(np.int32)
        return np.concatenate([np.full_like(c[:1], u), c[:-1]]), np.broadcast_to(
            c[-1], c.shape)
      for k, got in ((0, sc), (0, alone), (1, rd), (1, red)):
        want = jax.tree.map(lambda x, k=k: fold_(x)[k], tree)
        gl, gt = jax.tree_util.tree_flatten(got)
        wl, wt = jax.tree_util.tree_flatten(want)
        if gt != wt or any(not np.array_equal(a, b) for a, b in zip(gl, wl)):
          return f'a tree of many leaves: {gt}'
  h.smoke(trees, 1)
  h.smoke(inner, 1)
  h.smoke(named, 1)
  h.sample()
  solve([False])


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(op, n, layout, mode):
    tag = '+'.join(f'{np.dtype(d).name}{list(s) if s else ""}'
                   for d, s in layout)
    out.append((f'{mode} {op} {tag} n={n}', scan_harness,
                dict(op=op, n=n, layout=layout, mode=mode)))
  out.append(('members', members, {}))
  for n in (18, 24, 33, 40, 64, 65, 130) + ((100, 128, 200) if th else ()):
    out.append((f'wide {n}', wide, dict(n=n)))
  f32, i32, i8, u8, b = np.float32, np.int32, np.int8, np.uint8, np.bool_
  for n in range(1, 18):
    for mode in ('scan', 'both', 'preduce'):
      add('add', n, [(f32, ())], mode)
  ns = range(1, 18) if th else (1, 2, 3, 5, 6, 7, 11)
  for n in ns:
    for mode in ('scan', 'both', 'preduce'):
      add('mul', n, [(f32, (2,))], mode)
      for op in ('max', 'min'):
        add(op, n, [(i32, ())], mode)
        add(op, n, [(b, ())], mode)
        if n <= (8 if th else 5):
          add(op, n, [(f32, ())], mode)
        add(op, n, [(u8, ())], mode)
      for op in ('and', 'or', 'xor'):
        add(op, n, [(i32, ())], mode)
        add(op, n, [(b, (2,))], mode)
        add(op, n, [(u8, ())], mode)
      add('add', n, [(i32, ())], mode)
      add('add', n, [(u8, ()), (f32, (2, 2)), (i8, (3,))], mode)
      if n <= (9 if th else 5):
        add('mul', n, [(i8, ())], mode)
      add('max' if n % 2 else 'min', n, [(i8, (2,)), (b, ())], mode)
  return out
