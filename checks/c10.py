"""C10: reading a mesh file preserves geometry and periodic pairing."""
import itertools
import os
import tempfile
import types

import jax.numpy as jnp
import meshio
import numpy as np
import z3

from vlib import dse, jsym
from vlib.dse import SymInt, val, value
from vlib.harness import Unreproduced
from vlib.query import solve
from vlib.sym import STATS, Unsupported
from swirl_fem.common import mesh_reader
from checks.c25 import patched
from checks.c31 import Shim

# Corner positions in the order of the Gmsh manual (node ordering section).
GMSH = {
    0: [()],
    1: [(0,), (1,)],
    2: [(0, 0), (1, 0), (1, 1), (0, 1)],
    3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
        (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}
CELL = {0: 'vertex', 1: 'line', 2: 'quad', 3: 'hexahedron'}


def frames(ndim, proper):
  """Orders of the Gmsh corners that are lexicographic in some frame.

  proper: frames of positive orientation only.
  """
  out = []
  for p in itertools.permutations(range(ndim)):
    sign = round(np.linalg.det(np.eye(ndim)[list(p)])) if ndim else 1
    for f in itertools.product((0, 1), repeat=ndim):
      if proper and sign * (-1) ** sum(f) < 0:
        continue
      order = []
      for c in itertools.product((0, 1), repeat=ndim):
        x = [0] * ndim
        for d in range(ndim):
          x[p[d]] = c[d] ^ f[d]
        order.append(GMSH[ndim].index(tuple(x)))
      out.append(order)
  return out


def has_sym(x):
  if isinstance(x, SymInt):
    return True
  if isinstance(x, np.ndarray):
    return x.dtype == object and any(isinstance(v, SymInt) for v in x.flat)
  if isinstance(x, (list, tuple)):
    return any(has_sym(v) for v in x)
  return False


def keep(f):
  """An array constructor that leaves symbolic entries alone."""
  def g(x, *a, **k):
    x = list(x) if not isinstance(x, (np.ndarray, list, tuple)) else x
    if has_sym(x):
      k.pop('dtype', None)
      if f in (np.array, np.asarray):
        return f(x, dtype=object)
      return f(x, *a, **k)
    return f(x, *a, **k)
  return g


NP = Shim(np, **{n: keep(getattr(np, n)) for n in (
    'array', 'asarray', 'stack', 'concatenate', 'vstack', 'hstack')})


def read(mesh, ndim, shim=False):
  with patched((mesh_reader.meshio, 'read', lambda *a, **k: mesh),
               *([(mesh_reader, 'np', NP)] if shim else [])):
    return mesh_reader.read('mesh.msh', ndim)


def mesh_of(points, cells, periodic):
  return types.SimpleNamespace(
      points=points, cells_dict=cells, gmsh_periodic=periodic,
      cells=[types.SimpleNamespace(type=k, data=v) for k, v in cells.items()])


def judge(ndim, points, cells, periodic, pm):
  """None or what a concrete result has wrong."""
  if not np.array_equal(np.asarray(pm.node_coords, dtype=float),
                        np.asarray(points, dtype=float)[:, :ndim]):
    return 'node coordinates'
  want = np.asarray(cells[CELL[ndim]])
  got = np.asarray(pm.elements)
  if got.shape != want.shape or not any(
      np.array_equal(got, want[:, o]) for o in frames(ndim, True)):
    return f'elements {got.tolist()} of cells {want.tolist()}'
  if pm.physical_groups or pm.partitions is not None or pm.order != 1:
    return 'groups, partitions or order'
  if not periodic:
    return None if pm.periodic_links is None else 'links without periodicity'
  want = set()
  facets = np.asarray(cells[CELL[ndim - 1]])
  alts = []
  for order in frames(ndim - 1, False):
    s = set()
    for f in facets[:, order]:
      for dim, _, _, pairs in periodic:
        m = dict(np.asarray(pairs).tolist())
        if dim == ndim - 1 and all(int(x) in m for x in f):
          s.add((tuple(int(x) for x in f), tuple(m[int(x)] for x in f)))
    alts.append(s)
  got = set() if pm.periodic_links is None else {
      (tuple(a), tuple(b)) for a, b in np.asarray(pm.periodic_links).tolist()}
  if got not in alts:
    return f'links {sorted(got)} instead of {sorted(alts[0])}'


def cell_order(h, *, ndim, n):
  """Elements and coordinates, for all numberings and points."""
  h.func('mesh_reader.read')
  h.bound('up to 3 cells of any node numbering; all coordinates')
  nv = 5
  width = 2 ** ndim
  cells, cons = dse.ints('cell', (n, width), 0, 10 ** 6)
  points = jsym.poly_vars('x', (nv, 3))
  others = {'vertex': np.zeros((1, 1), int), 'line': np.zeros((2, 2), int),
            'triangle': np.zeros((1, 3), int), 'quad': np.ones((2, 4), int)}

  def mesh(c, p):
    return mesh_of(p, {**{k: v for k, v in others.items() if k != CELL[ndim]},
                       CELL[ndim]: c}, None)

  def concrete(c, p):
    m = mesh(c, p)
    return judge(ndim, p, m.cells_dict, None, read(m, ndim))
  h.smoke(lambda: concrete(h.nprng.integers(0, 99, (n, width)),
                           h.nprng.uniform(-1, 1, (nv, 3))))

  def run(path):
    pm = read(mesh(cells, points), ndim, shim=True)
    got = np.asarray(pm.elements)
    ok = got.shape == cells.shape
    STATS.obligations += got.size
    if ok:
      claim = z3.Or(*[z3.And(*[
          val(g) == val(c) for g, c in zip(got.reshape(-1),
                                           cells[:, o].reshape(-1))])
                      for o in frames(ndim, True)])
      m = path.proves(claim)
      if m is None:
        return
      c = value(m, cells)
    else:
      c = np.arange(n * width).reshape(n, width)
    d = concrete(c, np.zeros((nv, 3)))
    if d is None:
      raise Unreproduced(f'elements {got} for {c}')
    h.fail(d, dict(cells=c.tolist(), ndim=ndim))
  dse.explore(run, cons)
  pm = read(mesh(np.arange(n * width).reshape(n, width), points), ndim)
  want = points[:, :ndim]

  def again(env):
    return concrete(np.arange(n * width).reshape(n, width), np.array(
        [[env.get(f'x[{i},{j}]', 0.0) for j in range(3)] for i in range(nv)]))
  h.close([np.asarray(pm.node_coords)], [want], again, tol=1e-12,
          label='coordinates')
  if pm.periodic_links is not None:
    h.fail('links without periodicity', dict(ndim=ndim))


def links(h, *, ndim, facets, entities):
  """entities: list of (dimension, number of node pairs)."""
  h.func('mesh_reader.read', 'mesh_reader._get_periodic_links')
  h.bound('links: up to 3 facets in 1-D and 2-D, 2 in 3-D, of any '
          'numbering, up to 3 periodic entities of up to 4 node pairs, '
          'periodic facets or not')
  h.assume('an entity maps each of its nodes once (the file format)')
  w = 2 ** (ndim - 1)
  fac, cons = dse.ints('facet', (facets, w), 0, 10 ** 6)
  for f in fac:
    cons.append(z3.Distinct(*[x.e for x in f]))
  pairs = []
  for k, (dim, np_) in enumerate(entities):
    p, c = dse.ints(f'pair{k}', (np_, 2), 0, 10 ** 6)
    cons += c
    if np_ > 1:
      cons.append(z3.Distinct(*[x.e for x in p[:, 0]]))
      cons.append(z3.Distinct(*[x.e for x in p[:, 1]]))
    pairs.append(p)

  def image(p, x):
    e = z3.IntVal(-1)
    for a, b in p:
      e = z3.If(x == a.e, b.e, e)
    return e
  full = {}
  for k, (dim, _) in enumerate(entities):
    for f in range(facets):
      full[f, k] = z3.And(*[z3.Or(*[x.e == a.e for a in pairs[k][:, 0]])
                            for x in fac[f]]) if dim == ndim - 1 else (
                                z3.BoolVal(False))

  def mesh(f, ps):
    per = [[d, (k, k + 1), None, p] for k, ((d, _), p) in enumerate(
        zip(entities, ps))]
    return mesh_of(np.zeros((4, 3)), {
        CELL[ndim]: np.arange(2 ** ndim).reshape(1, -1), CELL[ndim - 1]: f}, per)

  def concrete(f, ps):
    m = mesh(f, ps)
    return judge(ndim, m.points, m.cells_dict, m.gmsh_periodic, read(m, ndim))

  def sample():
    # nodes 0, 1, ... are mapped; facets among them
    ps = [np.stack([h.nprng.permutation(n + 1)[:n],
                    20 + h.nprng.permutation(n)], axis=1) for _, n in entities]
    k = next(k for k, (d, n) in enumerate(entities)
             if d == ndim - 1 and n >= w)
    f = np.stack([h.nprng.permutation(ps[k][:, 0])[:w] for _ in range(facets)])
    return concrete(f, ps)
  h.smoke(sample)
  # no facet is periodic
  h.smoke(lambda: concrete(
      100 + np.arange(facets * w).reshape(facets, w),
      [np.stack([np.arange(n), 20 + np.arange(n)], axis=1)
       for _, n in entities]))

  def run(path):
    pm = read(mesh(fac, pairs), ndim, shim=True)
    got = pm.periodic_links
    STATS.obligations += 1
    got = np.zeros((0, 2, w)) if got is None else np.asarray(got)
    if len(got) and (got.ndim != 3 or got.shape[1:] != (2, w)):
      m = path.model()
    else:
      alts = []
      for order in frames(ndim - 1, False):
        want = []
        for (f, k), c in full.items():
          if z3.is_false(c):
            continue
          x = [y.e for y in fac[f][order]]
          want.append((c, x + [image(pairs[k], y) for y in x]))
        g = [[val(y) for y in r.reshape(-1)] for r in got]
        eq = [[z3.And(*[a == b for a, b in zip(r, t)]) for c, t in want]
              for r in g]
        alts.append(z3.And(
            *[z3.Or(*[z3.And(c, q) for (c, _), q in zip(want, row)])
              for row in eq],
            *[z3.Implies(want[j][0], z3.Or(*[row[j] for row in eq]))
              for j in range(len(want))]))
      m = path.proves(z3.Or(*alts))
      if m is None:
        return
    f, ps = value(m, fac), [value(m, p) for p in pairs]
    d = concrete(f, ps)
    if d is None:
      raise Unreproduced(f'links {got} for {f} {ps}')
    h.fail(d, dict(facets=f.tolist(), pairs=[p.tolist() for p in ps],
                   ndim=ndim))
  n = dse.explore(run, cons)
  h.sample(facets=facets, entities=entities, paths=n)


def whole_file(h):
  """The stand-in for the file library has the structure of the library."""
  h.func('mesh_reader.read')

  def one():
    pts = np.array([[x, y, 0.0] for x in range(3) for y in range(2)])
    quads = np.array([[0, 2, 3, 1], [2, 4, 5, 3]])
    lines = np.array([[0, 1], [4, 5], [2, 0], [4, 2]])
    per = [[1, (1, 2), None, np.array([[0, 4], [1, 5]])],
           [0, (1, 2), None, np.array([[0, 4]])],
           [1, (3, 4), None, np.array([[0, 1], [2, 3], [4, 5]])]]
    with tempfile.TemporaryDirectory() as d:
      path = os.path.join(d, 'mesh.msh')
      m = meshio.Mesh(pts, [('quad', quads), ('line', lines)],
                      gmsh_periodic=per)
      m.cell_data = {'gmsh:physical': [np.ones(2, int), np.ones(4, int)],
                     'gmsh:geometrical': [np.ones(2, int), np.ones(4, int)]}
      meshio.write(path, m, file_format='gmsh22', binary=False)
      pm = mesh_reader.read(path, 2)
    return judge(2, pts, {'quad': quads, 'line': lines}, per, pm)
  h.smoke(one)

  def line():
    pts = np.array([[x, 0.0, 0.0] for x in (0.0, 1.0, 2.0, 3.0)])
    lines = np.array([[0, 1], [1, 2], [2, 3]])
    per = [[0, (1, 2), None, np.array([[0, 3]])]]
    with tempfile.TemporaryDirectory() as d:
      path = os.path.join(d, 'mesh.msh')
      m = meshio.Mesh(pts, [('line', lines), ('vertex', np.array([[0], [3]]))],
                      gmsh_periodic=per)
      m.cell_data = {k: [np.ones(3, int), np.ones(2, int)]
                     for k in ('gmsh:physical', 'gmsh:geometrical')}
      meshio.write(path, m, file_format='gmsh22', binary=False)
      pm = mesh_reader.read(path, 1)
      mesh = pm.finalize()
    d = judge(1, pts, {'line': lines, 'vertex': np.array([[0], [3]])}, per, pm)
    if d is None and not np.array_equal(mesh.exchange(jnp.ones(4)),
                                        [2, 1, 1, 2]):
      d = 'the ends of a periodic line are not one node'
    return d
  h.smoke(line)
  solve([False])


def rejects(h):
  """Invalid dimensions and missing cell types."""
  h.func('mesh_reader.read')
  h.bound('every dimension outside 1 to 3, every set of missing cell types')
  d, = dse.ints('ndim', (1,), -100, 100)[0]

  def bad_dim(path):
    try:
      read(mesh_of(np.zeros((3, 3)), {
          'line': np.zeros((1, 2), int), 'quad': np.zeros((1, 4), int),
          'hexahedron': np.zeros((1, 8), int)}, None), d)
    except (ValueError, KeyError, NotImplementedError):
      return
    m = path.model()
    h.fail(f'accepted dimension {value(m, d)}', dict(ndim=value(m, d)))
  dse.HASH_REALISES = True      # dimensions may be looked up among numbers
  try:
    dse.explore(bad_dim, [d.e >= -100, d.e <= 100, z3.Or(d.e < 1, d.e > 3)])
  finally:
    dse.HASH_REALISES = False
  for ndim in (1, 2, 3):
    for r in range(3):
      for have in itertools.combinations(
          sorted({'line', 'quad', 'hexahedron', 'triangle'} - {CELL[ndim]}), r):
        m = mesh_of(np.zeros((3, 3)), {
            k: np.zeros((1, 2), int) for k in have}, None)
        try:
          read(m, ndim)
        except (ValueError, KeyError, NotImplementedError):
          continue
        h.fail(f'read a mesh without {CELL[ndim]} cells', dict(have=have))


def harnesses(tier):
  th = tier == 'thorough'
  out = [(f'cells {d}-D {n}', cell_order, dict(ndim=d, n=n))
         for d in (1, 2, 3) for n in ((1, 2, 3) if not th else (1, 2, 3, 6))]

  def add(ndim, facets, *entities):
    out.append((f'links {ndim}-D {facets} facets {entities}', links,
                dict(ndim=ndim, facets=facets, entities=entities)))
  add(1, 1, (0, 1))
  add(1, 2, (0, 1), (0, 1))
  add(1, 3, (0, 2))
  add(2, 1, (1, 2))
  add(2, 2, (1, 2))
  add(2, 2, (1, 3))
  add(2, 1, (1, 2), (1, 2))
  add(2, 2, (1, 2), (1, 2))
  add(2, 1, (0, 1), (1, 3), (0, 1))
  add(2, 1, (0, 2), (1, 2), (1, 2))
  add(2, 3, (1, 2))
  add(3, 1, (2, 4))
  add(3, 1, (2, 4), (1, 2))
  add(3, 1, (2, 4), (2, 4))
  add(3, 1, (1, 4), (2, 4))
  if th:
    add(2, 3, (1, 3))
    add(2, 2, (1, 3), (1, 2))
    add(2, 2, (1, 2), (1, 2), (1, 2))
    add(3, 2, (2, 4))
    add(3, 1, (2, 5))
  out += [('whole file', whole_file, {}), ('rejects', rejects, {})]
  return out
