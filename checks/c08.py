"""C08: the unit cube mesh has the right geometry, topology and labels."""
import itertools

import numpy as np
import z3

from vlib import boot, dse, jsym
from vlib.dse import val, value
from vlib.harness import Unreproduced
from vlib.query import CloseQuery, solve
from vlib.sym import Poly, STATS, Unsupported
from swirl_fem.common import premesh_commons


def table(idx, values):
  """values[idx] as a term; idx a term, values integers."""
  e = z3.IntVal(int(values[-1]))
  for k in range(len(values) - 2, -1, -1):
    e = z3.If(idx == k, z3.IntVal(int(values[k])), e)
  return e


def grid_positions(pm, n, ndim):
  """Integer grid position of every node; pm spans [0, n]."""
  x = np.asarray(pm.node_coords, dtype=np.float64)
  if x.shape != ((n + 1) ** ndim, ndim):
    return None, f'node coordinates of shape {x.shape}'
  g = np.round(x).astype(int)
  if np.abs(x - g).max() > 1e-9:
    return None, 'nodes off the uniform grid'
  return g, None


def flat(g, n):
  """Positions as single numbers in base n + 1."""
  return sum(g[..., d] * (n + 1) ** (g.shape[-1] - 1 - d)
             for d in range(g.shape[-1]))


class Claims:
  """Decides claims with symbolic indices into concrete tables."""

  def __init__(self, h, where):
    self.h, self.where = h, where

  def hold(self, what, domain, claim, *names):
    STATS.obligations += 1
    m = solve(list(domain) + [z3.Not(claim)])
    if m is not None:
      self.h.fail(f'{what}: ' + ', '.join(
          f'{x} = {m.eval(x, True)}' for x in names), self.where)


def topology(h, *, n, ndim, periodic):
  h.func('premesh_commons.unit_cube_mesh',
         'premesh_commons._unit_cube_facet_elements')
  h.bound('1 to 5 (1-D), 4 (2-D), 3 (3-D) cells per direction, every subset of '
          'periodic directions')
  where = dict(n=n, ndim=ndim, periodic=list(periodic))
  pm = premesh_commons.unit_cube_mesh(n, ndim=ndim, a=0.0, b=float(n),
                                      periodic_dims=periodic)
  g, bad = grid_positions(pm, n, ndim)
  if bad:
    h.fail(bad, where)
  c = Claims(h, where)
  i, j, k = z3.Ints('i j k')
  gf = flat(g, n)
  # the nodes are exactly the grid points
  nn = len(g)
  c.hold('two nodes at one grid point', [0 <= i, i < j, j < nn],
         table(i, gf) != table(j, gf), i, j)
  pos = {int(v): q for q, v in enumerate(gf)}

  def shape_ok(name, a, width):
    a = np.asarray(a)
    if a.ndim < 2 or a.shape[-1] != width or a.dtype.kind not in 'iu':
      h.fail(f'{name} of shape {a.shape} and type {a.dtype}', where)
    if a.size and (a.min() < 0 or a.max() >= nn):
      h.fail(f'{name}: node out of range', where)
    return a

  # every element is the cell above its first corner, corner by corner
  els = shape_ok('elements', pm.elements, 2 ** ndim)
  ge = g[els]                                   # (elements, corners, ndim)
  off = np.array(list(itertools.product((0, 1), repeat=ndim)))
  ne = len(els)
  if ne != n ** ndim:
    h.fail(f'{ne} elements', where)
  dom = [0 <= i, i < ne, 0 <= j, j < 2 ** ndim]
  for d in range(ndim):
    c.hold(f'corner off its place in direction {d}', dom,
           table(i * 2 ** ndim + j, ge[:, :, d].reshape(-1))
           == table(i, ge[:, 0, d]) + table(j, off[:, d]), i, j)
  c.hold('a cell twice', [0 <= i, i < j, j < ne],
         table(i, flat(ge[:, 0], n)) != table(j, flat(ge[:, 0], n)), i, j)

  # boundary facets: exactly those on non-periodic sides
  groups = dict(pm.physical_groups)
  if set(groups) - {'boundary'}:
    h.fail(f'physical groups {sorted(groups)}', where)
  free = [d for d in range(ndim) if d not in periodic]
  want = 2 * len(free) * n ** (ndim - 1)
  facets = groups.get('boundary')
  if (0 if facets is None else len(facets)) != want:
    h.fail(f'{0 if facets is None else len(facets)} boundary facets instead '
           f'of {want}', where)
  sub = np.array(list(itertools.product((0, 1), repeat=ndim - 1))).reshape(
      2 ** (ndim - 1), ndim - 1)

  def facet_claims(name, f, axes, sides):
    """f (facets, corners): each is a full facet on one of the sides."""
    gf_ = g[f]                                  # (facets, corners, ndim)
    w = 2 ** (ndim - 1)
    alts = []
    for ax in axes:
      for s in sides:
        cl = []
        rest = [d for d in range(ndim) if d != ax]
        cl.append(table(i * w + j, gf_[:, :, ax].reshape(-1)) == s)
        for q, d in enumerate(rest):
          base = table(i, gf_[:, 0, d])
          cl += [table(i * w + j, gf_[:, :, d].reshape(-1))
                 == base + table(j, sub[:, q]), base < n]
        alts.append((ax, s, cl))
    dom = [0 <= i, i < len(f), 0 <= j, j < w]
    # the side is chosen per facet: it must work for every corner
    pick = []
    for ax, s, cl in alts:
      full = [z3.substitute(z3.And(*cl), (j, z3.IntVal(q))) for q in range(w)]
      pick.append(z3.And(*full))
    c.hold(f'{name} is not a facet of a side', dom, z3.Or(*pick), i)
    # all different as sets: the corner closest to the origin and the axis
    key = np.array([int(flat(x[0], n)) * ndim + next(
        (ax for ax in range(ndim) if (x[:, ax] == x[0, ax]).all()
         and x[0, ax] in sides and ax in axes), 0) for x in gf_])
    c.hold(f'{name} twice', [0 <= i, i < j, j < len(f)],
           table(i, key) != table(j, key), i, j)

  if want:
    facets = shape_ok('boundary facets', facets, 2 ** (ndim - 1))
    facet_claims('boundary facet', facets, free, (0, n))
  # periodic links
  links = pm.periodic_links
  wantl = len(set(periodic)) * n ** (ndim - 1)
  if (0 if links is None else len(links)) != wantl:
    h.fail(f'{0 if links is None else len(links)} links instead of {wantl}',
           where)
  if wantl:
    links = shape_ok('links', links, 2 ** (ndim - 1))
    if links.shape[1:] != (2, 2 ** (ndim - 1)):
      h.fail(f'links of shape {links.shape}', where)
    gl = g[links]
    first = [np.where((x[0] == 0).all(0) & (x[1] == n).all(0), 1, 0)
             for x in gl]
    # orient every link from the low to the high side
    low = np.array([l if a.any() else l[::-1] for l, a in zip(links, first)])
    facet_claims('low side of a link', low[:, 0], sorted(set(periodic)), (0,))
    ga, gb = g[low[:, 0]], g[low[:, 1]]
    w = 2 ** (ndim - 1)
    alts = []
    for ax in sorted(set(periodic)):
      cl = []
      for q in range(w):
        for d in range(ndim):
          cl.append(table(i, gb[:, q, d]) == table(i, ga[:, q, d])
                    + (n if d == ax else 0))
      alts.append(z3.And(*cl))
    c.hold('a link does not join translates', [0 <= i, i < len(low)],
           z3.Or(*alts), i)
  h.sample(nodes=nn, elements=ne, boundary=want, links=wantl)


def coordinates(h, *, n, ndim):
  """Node coordinates for all bounds a and b."""
  h.func('premesh_commons.unit_cube_mesh')
  h.bound('all bounds in [-1, 1], the same sizes')
  where = dict(n=n, ndim=ndim)

  def claim(a, b):
    pm = premesh_commons.unit_cube_mesh(n, ndim=ndim, a=a, b=b)
    g, bad = grid_positions(premesh_commons.unit_cube_mesh(
        n, ndim=ndim, a=0.0, b=float(n)), n, ndim)
    if bad:
      h.fail(bad, where)
    want = np.empty(g.shape, dtype=object)
    for i in np.ndindex(*g.shape):
      want[i] = a * (1 - g[i] / n) + b * (g[i] / n)
    return np.asarray(pm.node_coords), want

  def concrete(a, b):
    got, want = claim(a, b)
    d = np.abs(got.astype(float) - want.astype(float)).max()
    if d > 1e-9:
      return f'bounds {a}, {b}: a coordinate is off by {d}'
  h.smoke(lambda: concrete(-0.75, 2.5))
  h.smoke(lambda: concrete(3.0, -1.0))
  a, b = Poly.var('a'), Poly.var('b')
  try:
    got, want = claim(a, b)
  except (TypeError, AttributeError) as e:
    raise Unsupported(f'bounds do not stay symbolic: {e!r:.80}')
  if got.shape != want.shape:
    h.fail(f'coordinates of shape {got.shape}', where)

  def run(env):
    return concrete(env.get('a'), env.get('b'))
  h.close([got], [want], run, tol=1e-9, label='coordinates')
  # the defaults are the unit cube
  pm = premesh_commons.unit_cube_mesh(n, ndim=ndim)
  x = np.asarray(pm.node_coords)
  if x.min() != 0 or x.max() != 1:
    h.fail('the default bounds are not 0 and 1', where)


def labels(h, *, n, shape):
  """Partition labels for all label arrays."""
  h.func('premesh_commons.unit_cube_mesh')
  h.bound('all partition labels, every partition shape that divides the grid')
  ndim = len(shape)
  where = dict(n=n, partitions=list(shape))
  parts, cons = dse.ints('label', shape, 0, 1000)

  def pairs(parts):
    pm = premesh_commons.unit_cube_mesh(n, ndim=ndim, a=0.0, b=float(n),
                                        partitions=parts)
    g, bad = grid_positions(pm, n, ndim)
    if bad:
      h.fail(bad, where)
    got = np.asarray(pm.partitions)
    if got.shape != (len(pm.elements),):
      h.fail(f'labels of shape {got.shape}', where)
    for e, x in enumerate(g[np.asarray(pm.elements)].min(axis=1)):
      cell = tuple(int(x[d]) * shape[d] // n for d in range(ndim))
      yield e, got[e], parts[cell]

  def concrete(p):
    for e, x, y in pairs(p):
      if int(x) != int(y):
        return f'element {e} gets label {x} instead of {y}'
  h.smoke(lambda: concrete(h.nprng.permutation(int(np.prod(shape))).reshape(
      shape)))

  def run(path):
    for e, x, y in pairs(parts):
      STATS.obligations += 1
      m = path.proves(val(x) == val(y))
      if m is not None:
        p = value(m, parts)
        h.fail(concrete(p) or f'element {e}', dict(where, labels=p.tolist()))
  dse.explore(run, cons)
  h.sample(grid=n, partitions=shape)


def vector_claim(n, ndim, periodic, a, b, shape=None, ids=None):
  """The definition, with numpy, on one mesh of any size."""
  parts = None
  if shape is not None:
    parts = np.asarray(ids).reshape(shape)
  pm = premesh_commons.unit_cube_mesh(
      n, ndim=ndim, a=a, b=b, periodic_dims=periodic,
      partitions=parts)
  x = np.asarray(pm.node_coords, dtype=np.float64)
  if x.shape != ((n + 1) ** ndim, ndim):
    return f'node coordinates of shape {x.shape}'
  g = np.rint((x - a) * n / (b - a)).astype(np.int64)
  if np.abs(a + g * (b - a) / n - x).max() > 1e-12 * max(1, abs(a), abs(b)):
    return 'nodes off the uniform grid'
  key = flat(g, n)
  if len(np.unique(key)) != len(key) or g.min() < 0 or g.max() > n:
    return 'the nodes are not the grid points'
  els = np.asarray(pm.elements)
  if els.shape != (n ** ndim, 2 ** ndim):
    return f'elements of shape {els.shape}'
  if els.min() < 0 or els.max() >= len(x):
    return 'an element has a node out of range'
  off = np.array(list(itertools.product((0, 1), repeat=ndim)))
  low = g[els][:, 0]
  if (g[els] != low[:, None] + off).any() or len(
      np.unique(flat(low, n))) != len(els):
    return 'the elements are not the cells'
  per = sorted({int(d) for d in periodic})
  sub = np.array(list(itertools.product((0, 1), repeat=ndim - 1))).reshape(
      2 ** (ndim - 1), ndim - 1)

  def sides(f, axes, values, what, count):
    """Facets f as distinct (axis, side, cell) numbers, or a complaint."""
    f = np.asarray(f)
    if f.shape != (count, 2 ** (ndim - 1)):
      return f'{what}: shape {f.shape}, {count} facets expected'
    if not count:
      return None
    if f.min() < 0 or f.max() >= len(x):
      return f'{what}: node out of range'
    p = g[f]
    num = np.full(count, -1, dtype=np.int64)
    for ax in axes:
      rest = [d for d in range(ndim) if d != ax]
      for k, v in enumerate(values):
        ok = (p[:, :, ax] == v).all(1) & (
            p[:, :, rest] == p[:, :1, rest] + sub).all((1, 2))
        cell = sum(p[:, 0, d] * n ** (len(rest) - 1 - q)
                   for q, d in enumerate(rest)) if rest else 0
        num = np.where(ok, (ax * 2 + k) * n ** max(ndim - 1, 0) + cell, num)
    if (num < 0).any() or len(np.unique(num)) != count:
      return f'{what}: not the facets of the sides'
    return None
  free = [d for d in range(ndim) if d not in per]
  groups = dict(pm.physical_groups)
  count = 2 * len(free) * n ** (ndim - 1)
  if set(groups) != ({'boundary'} if count else set()):
    return f'groups {sorted(groups)}'
  if count:
    d = sides(groups['boundary'], free, (0, n), 'boundary', count)
    if d:
      return d
  count = len(per) * n ** (ndim - 1)
  links = pm.periodic_links
  if (links is None) != (not count):
    return f'periodic links {links is not None}'
  if count:
    links = np.asarray(links)
    if links.shape != (count, 2, 2 ** (ndim - 1)):
      return f'links of shape {links.shape}'
    flip = flat(g[links[:, 0, 0]], n) > flat(g[links[:, 1, 0]], n)
    links = np.where(flip[:, None, None], links[:, ::-1], links)
    d = sides(links[:, 0], per, (0,), 'low side', count)
    if d:
      return d
    diff = g[links[:, 1]] - g[links[:, 0]]
    ax = np.argmax(diff[:, 0], axis=1)
    if (diff != n * np.eye(ndim, dtype=int)[ax][:, None]).any() or (
        g[links[:, 0]][np.arange(count), :, ax] != 0).any():
      return 'a link does not join translates'
  if shape is None:
    if pm.partitions is not None:
      return 'partitions out of nowhere'
    return None
  cell = tuple(low[:, d] * shape[d] // n for d in range(ndim))
  got = np.asarray(pm.partitions)
  if got.shape != (len(els),) or (
      got.astype(np.int64) != parts.astype(np.int64)[cell]).any():
    return 'an element has the label of another block'
  return None


def large(h):
  """Meshes of many nodes and labels, real runs."""
  h.func('premesh_commons.unit_cube_mesh')
  h.assume('concrete meshes of up to 70000 cells, labels beyond 16 bits, '
           'bounds far from one, other kinds of arguments')
  def ids(shape, kind=np.int64, step=7):
    k = int(np.prod(shape))
    return (np.arange(k) * step % k).astype(kind)
  for args in ((70000, 1, (), 0.0, 1.0), (66000, 1, (0,), -3.0, 5.0),
               (260, 2, (0,), 0.0, 2 * np.pi), (260, 2, [1], 1e3, 1e3 + 1),
               (90, 2, {0, 1}, 0.0, 1.0), (12, 3, np.array([2]), -1, 1),
               (33, 3, (2, 0), 0, 1), (14, 3, [0, 1, 2], 1e-6, 2e-6),
               (9, 3, (), 5, -5), (10, 2, range(2), 0.0, 1e6),
               (40, 2, (0,), 0, 1, (40, 20), ids((40, 20), np.int32)),
               (300, 2, (), 0, 1, (300, 300), ids((300, 300))),
               (12, 3, (1,), 0, 1, (6, 12, 3), ids((6, 12, 3), np.int16)),
               (70000, 1, (), 0, 1, (70000,), ids((70000,))),
               (64, 2, (), 0, 1, (1, 64), ids((1, 64), np.uint8)),
               (4, 2, (), 0, 1, (2, 2), np.array([900, 5, 70000, 3]))):
    h.smoke(lambda args=args: vector_claim(*args), 1)
  h.sample()
  solve([False])


def harnesses(tier):
  th = tier == 'thorough'
  out = [('large', large, {})]
  for ndim, n, p in [(1, 33, ()), (1, 40, (0,)), (2, 11, ()), (2, 13, (1,)),
                     (2, 10, (0, 1)), (3, 5, (1,)), (3, 5, (0, 1, 2))]:
    out.append((f'topology {ndim}-D {n} cells periodic {p}', topology,
                dict(n=n, ndim=ndim, periodic=p)))
  top = {1: 5, 2: 4, 3: 3} if not th else {1: 9, 2: 6, 3: 4}
  for ndim in (1, 2, 3):
    for n in range(1, top[ndim] + 1):
      for r in range(ndim + 1):
        for p in itertools.combinations(range(ndim), r):
          if not th and ndim == 3 and n == 3 and r not in (0, 2):
            continue
          out.append((f'topology {ndim}-D {n} cells periodic {p}', topology,
                      dict(n=n, ndim=ndim, periodic=p)))
      out.append((f'coordinates {ndim}-D {n}', coordinates,
                  dict(n=n, ndim=ndim)))
      div = [d for d in range(1, n + 1) if n % d == 0]
      for shape in itertools.product(div, repeat=ndim):
        if ndim < 3 or n < 3 or th or len(set(shape)) > 1:
          out.append((f'labels {n} cells {shape}', labels,
                      dict(n=n, shape=shape)))
  return out
