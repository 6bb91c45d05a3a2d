"""C21: local and global views of a semi-traced scalar always agree."""
import itertools
import operator

import numpy as np
import z3

from vlib import boot, dse, jsym, ops
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import Unreproduced
from vlib.jsym import Leaf
from vlib.query import model_value, solve
from vlib.sym import (BX, STATS, U, b_all, b_any, b_atom, b_not, int_to_u, same, u_lift)
from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S

BITWISE = ['lt', 'le', 'eq', 'ne', 'gt', 'ge', 'add', 'sub', 'mul', 'lshift',
           'rshift', 'and', 'xor', 'or']
LIFTED = ['truediv', 'floordiv', 'mod', 'pow']
COMPARE = ('lt', 'le', 'eq', 'ne', 'gt', 'ge')


class G:
  """An entry of a global view: numpy's integer semantics over symbols."""

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    return 0

  def __repr__(self):
    return f'G({self.e})'


def raw(x):
  if isinstance(x, G):
    return x.e
  return x.item() if isinstance(x, np.generic) else x


def _install():
  bv = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
        'mul': lambda a, b: a * b, 'and': lambda a, b: a & b,
        'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
        'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b}
  cmp = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
         'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
         'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}

  def make(name, swap):
    py = getattr(operator, f'__{name}__')

    def m(self, o):
      if isinstance(o, np.ndarray):
        return NotImplemented
      a, b = raw(self), raw(o)
      if swap:
        a, b = b, a
      if isinstance(a, U) or isinstance(b, U):
        num = lambda v: np.float64(v) if isinstance(v, float) else np.int64(v)
        r = u_lift(lambda x, y: py(num(x), num(y)).item(), a, b)
        if name in cmp and isinstance(r, U):
          r = b_any([g for v, g in r.d.items() if v])
      elif name in cmp:
        r = b_atom(z3.simplify(cmp[name](a, b))) if (
            z3.is_expr(a) or z3.is_expr(b)) else cmp[name](a, b)
      elif isinstance(a, (bool, BX)) and isinstance(b, (bool, BX)):
        r = {'and': ops.land, 'or': ops.lor, 'xor': ops.lxor}[name](a, b)
      else:
        r = bv[name](a, b)
      if name in cmp and isinstance(r, BX):
        return dse.SymBool(dse.to_z3(r))
      if name in cmp and isinstance(r, (bool, np.bool_)):
        return bool(r)      # (numpy asks for the truth of each comparison)
      return G(r)
    return m

  for n in list(bv) + LIFTED:
    setattr(G, f'__{n}__', make(n, False))
    setattr(G, f'__r{n}__', make(n, True))
  for n in cmp:
    setattr(G, f'__{n}__', make(n, False))


_install()


def scalar(locals_, values):
  return S(local=locals_, global_=values)


def operands(name, n, style, lo, hi):
  """Per-device symbolic values: words or unions over a range."""
  zs = [z3.BitVec(f'{name}{d}', 64) for d in range(n)]
  dom = [z3.And(z >= lo, z <= hi) for z in zs]
  vs = np.empty(n, dtype=object)
  for d in range(n):
    vs[d] = zs[d] if style == 'bv' else int_to_u(zs[d], range(lo, hi + 1))
  return zs, vs, dom


def glob(vs):
  out = np.empty(len(vs), dtype=object)
  for i, v in enumerate(vs):
    out[i] = G(v)
  return out


def concrete_views(program, xs, n):
  """Runs the real program on concrete operands; local and global values."""
  box = []

  def f(*locs):
    args = [S(local=l, global_=np.asarray(x)) for l, x in zip(locs, xs)]
    r = program(*args)
    box.append(np.asarray(r.global_))
    return jnp.asarray(r.local)
  loc = jax.vmap(f, axis_name='i', axis_size=n)(*[jnp.asarray(x) for x in xs])
  return np.asarray(loc), box[-1]


def program_harness(h, *, program, ranges, n, style, label):
  """ranges: (lo, hi) of every operand, one symbolic value per device."""
  h.func('SemiTracedScalar operators', 'semi_traced_scalar._lift_ops',
         'SemiTracedScalar.where')
  h.bound('1..3 devices with independent values; words in [-1000, 1000] '
          '(products and shifts in [-30, 30] by 0..6), division, remainder and '
          'powers of values in [-5, 6]; constants that are no integers with values '
          'in [-4, 4]; axis indices and sizes of 1..9 devices')
  h.assume('values in the range common to the 32 bit local and 64 bit global '
           'representation')
  syms = [operands(f'x{k}', n, style, lo, hi)
          for k, (lo, hi) in enumerate(ranges)]
  dom = [c for _, _, d in syms for c in d]

  def conc(xs):
    with np.errstate(all='ignore'):
      l, g = concrete_views(program, xs, n)
    if g.shape != (n,):
      return f'the global view has shape {g.shape} on {n} devices'
    if not np.array_equal(l.astype(np.float64), g.astype(np.float64)):
      return f'{label}: local views {l.tolist()}, global view {g.tolist()}'
    return None

  def draw():
    return [h.nprng.integers(lo, hi + 1, size=n) for lo, hi in ranges]
  h.smoke(lambda: conc(draw()))

  def run(path):
    box = []

    def f(*locs):
      args = [S(local=l, global_=glob(v)) for l, (_, v, _) in zip(locs, syms)]
      r = program(*args)
      box.append(np.asarray(r.global_, dtype=object))
      return jnp.asarray(r.local)
    got = jsym.call_lanes(f, 'i', n, tuple(Leaf(v, jnp.int64)
                                           for _, v, _ in syms))
    gl = box[-1]
    oks = [gl.shape == (n,)]
    if oks[0]:
      for d in range(n):
        a, b = jsym.to_obj(got)[d], raw(gl[d])
        if isinstance(b, np.bool_):
          b = bool(b)
        oks.append(same(a, b))
    STATS.obligations += len(oks)
    m = path.model(z3.Not(dse.to_z3(b_all(oks))))
    if m is not None:
      xs = [np.array([m.eval(z, model_completion=True).as_signed_long()
                      for z in zs]) for zs, _, _ in syms]
      d = conc(xs)
      if d is None:
        raise Unreproduced(f'{h.name}: {[x.tolist() for x in xs]}')
      h.fail(d, {'operands': xs})
  paths = dse.explore(run, dom)
  h.sample(program=label, devices=n, paths=paths)


def basics(h, *, n):
  """Axis indices, sizes and constants on n devices."""
  h.func('SemiTracedScalar.axis_index', 'SemiTracedScalar.axis_size',
         'SemiTracedScalar.constant')
  progs = {
      'index': lambda: S.axis_index('i'),
      'size': lambda: S.axis_size('i'),
      'constant': lambda: S.constant(7, 'i'),
      'mixed': lambda: S.where(S.axis_index('i') < S.axis_size('i') // 2,
                               S.axis_index('i') * 3 - 1,
                               S.axis_size('i') - S.axis_index('i')),
      'reflected': lambda: 10 - S.axis_index('i') ** 2 % S.axis_size('i'),
  }
  expected = {
      'index': lambda: np.arange(n), 'size': lambda: np.full(n, n),
      'constant': lambda: np.full(n, 7),
      'mixed': lambda: np.where(np.arange(n) < n // 2, np.arange(n) * 3 - 1,
                                n - np.arange(n)),
      'reflected': lambda: 10 - np.arange(n) ** 2 % n,
  }
  for k, p in progs.items():
    def real(p=p, k=k):
      box = []

      def f(x):
        r = p()
        box.append(np.asarray(r.global_))
        return jnp.asarray(r.local) + 0 * x
      l = np.asarray(jax.vmap(f, axis_name='i')(jnp.zeros(n, jnp.int32)))
      if not np.array_equal(l, box[-1]) or not np.array_equal(
          box[-1], expected[k]()):
        return f'{k} on {n} devices: local {l}, global {box[-1]}'
      return None
    h.smoke(real)
    box = []

    def f(x):
      r = p()
      box.append(np.asarray(r.global_))
      return jnp.asarray(r.local) + 0 * x
    got = jsym.call_lanes(f, 'i', n, (np.zeros(n, np.int32),))
    want = expected[k]()
    bad = (box[-1].shape != (n,) or not np.array_equal(box[-1], want) or
           not np.array_equal(np.asarray(got, dtype=np.int64), want))
    if solve([z3.BoolVal(bool(bad))]) is not None:
      d = real()
      if d is None:
        raise Unreproduced(f'{h.name}: {k}')
      h.fail(d, {'devices': n})


def harnesses(tier):
  th = tier == 'thorough'
  out = [(f'axis views n={n}', basics, dict(n=n))
         for n in range(1, 17 if th else 10)]

  def add(label, program, ranges, n, style):
    out.append((f'{label} n={n}', program_harness,
                dict(program=program, ranges=ranges, n=n, style=style,
                     label=label)))

  def rng(op):
    if op in ('mul',):
      return [(-30, 30), (-30, 30)]
    if op in ('lshift', 'rshift'):
      return [(-30, 30), (0, 6)]
    if op in ('floordiv', 'mod', 'truediv'):
      return [(-5, 6), (1, 6)]
    if op == 'pow':
      return [(-2, 3), (0, 3)]
    return [(-1000, 1000)] * 2
  for op in BITWISE + LIFTED:
    py = getattr(operator, f'__{op}__')
    r = rng(op)
    style = 'bv' if op in BITWISE else 'u'
    if op == 'pow':
      for c in (0, 1, 2, 4):
        add(f'x pow {c}', lambda x, c=c: x ** c, [(-4, 4)], 2, style)
      for c in (-2, 0, 1, 2):
        add(f'{c} pow y', lambda y, c=c: c ** y, [(0, 4)], 2, style)
    for n in () if op == 'pow' else (1, 2) + ((3,) if th else ()):
      add(f'x {op} y', py, r, n, style)
    add(f'x {op} 3', lambda x, py=py: py(x, 3), r[:1], 2, style)
    if op in ('floordiv', 'mod', 'truediv'):
      add(f'x {op} -2', lambda x, py=py: py(x, -2), r[:1], 2, style)
      add(f'x {op} y negative', py, [(-5, 6), (-6, -1)], 2, style)
      add(f'7 {op} y', lambda y, py=py: py(7, y), r[1:], 2, style)
    elif op in ('lshift', 'rshift', 'pow'):
      add(f'5 {op} y', lambda y, py=py: py(5, y), r[1:], 2, style)
    else:
      add(f'-4 {op} y', lambda y, py=py: py(-4, y), r[1:], 2, style)
    if op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod') + COMPARE:
      # constants that are no integers
      lo = 1 if op in ('truediv', 'floordiv', 'mod') else -4
      add(f'x {op} 2.5', lambda x, py=py: py(x, 2.5), [(-4, 4)], 2, 'u')
      add(f'-0.5 {op} y', lambda y, py=py: py(-0.5, y), [(lo, 4)], 2, 'u')
  big = [(-100, 100)] * 3
  add('where(x < y, y, z)', lambda x, y, z: S.where(x < y, y, z), big, 2, 'bv')
  add('where(x == y, x + z, z - y)',
      lambda x, y, z: S.where(x == y, x + z, z - y), big, 1, 'bv')
  add('where((x > y) & (y >= z), x ^ y, 2 * z)',
      lambda x, y, z: S.where((x > y) & (y >= z), x ^ y, 2 * z), big, 1, 'bv')
  add('where((x != y) | (y <= z), 1 - x, x)',
      lambda x, y, z: S.where((x != y) | (y <= z), 1 - x, x), big, 1, 'bv')
  add('(x + y) // 2', lambda x, y: (x + y) // 2, [(-5, 6)] * 2, 1, 'u')
  add('where(x < 3, x % 3, 2 ** x)',
      lambda x: S.where(x < 3, x % 3, 2 ** (x & 3)), [(0, 6)], 2, 'u')
  return out
