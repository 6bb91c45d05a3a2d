"""C09: refinement yields a conforming high-order mesh in every orientation."""
import itertools

import numpy as np
import z3

from vlib import dse, jsym, meshes
from vlib.query import solve
from vlib.sym import STATS, Unsupported
from swirl_fem.core import mesh_refiner
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.premesh import Premesh

KINDS = {'nc': NodeType.NEWTON_COTES, 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE,
         'gl': NodeType.GAUSS_LEGENDRE}


def symmetries(ndim):
  """Every corner order of a cube that is again lexicographic in some frame."""
  ref = np.arange(2 ** ndim).reshape([2] * ndim)
  out = []
  for p in itertools.permutations(range(ndim)):
    for flips in itertools.product((1, -1), repeat=ndim):
      a = ref.transpose(p)[tuple(slice(None, None, f) for f in flips)]
      out.append(tuple(a.reshape(-1).tolist()))
  return out


def nodes_1d(kind, n):
  if kind == 'one':
    return Nodes1D.create_single_point(0.25)
  return Nodes1D.create(n, KINDS[kind])


def values_1d(kind, n):
  """Node positions, independently of the code."""
  if kind == 'one':
    return np.array([0.25])
  if kind == 'nc':
    return np.array([-1 + 2 * k / (n - 1) for k in range(n)])
  if kind == 'gl':
    return np.polynomial.legendre.leggauss(n)[0]
  return np.asarray(meshes.gll(n)[0] if isinstance(meshes.gll(n), tuple)
                    else meshes.gll(n), dtype=float)


def weights(x, ndim):
  """(points, corners): multilinear weights at the tensor-product points."""
  w1 = np.stack([(1 - x) / 2, (1 + x) / 2], axis=-1)
  w1[np.abs(w1) < 1e-15] = 0.0
  w = np.ones((1, 1))
  for _ in range(ndim):
    w = np.kron(w, w1)
  return w


def keys(corner_ids, w, digits=9):
  """Hashable position of every point in terms of the vertices alone."""
  out = []
  for row in w:
    d = {}
    for c, a in zip(corner_ids, row):
      a = round(float(a), digits)
      if a:
        d[int(c)] = round(d.get(int(c), 0.0) + a, digits)
    out.append(tuple(sorted(d.items())))
  return out


# elements over vertices, with the facets that are boundary or linked
def layouts(name):
  """(number of vertices, elements, facets, link pairs)."""
  if name == 'segments':
    return 3, [[0, 1], [1, 2]], [[0], [2]], [([0], [2])]
  if name == 'loop':          # a ring of three segments
    return 3, [[0, 1], [1, 2], [2, 0]], [], []
  if name == 'star':          # three segments at one vertex
    return 4, [[0, 1], [0, 2], [0, 3]], [[1], [3]], []
  if name == 'quads':         # two quadrilaterals at an edge
    return 6, [[0, 1, 2, 3], [2, 3, 4, 5]], [[0, 1], [2, 4]], [
        ([0, 1], [4, 5]), ([0, 2], [1, 3])]
  if name == 'corner':        # two quadrilaterals at a vertex
    return 7, [[0, 1, 2, 3], [3, 4, 5, 6]], [[0, 1]], [([0, 1], [5, 6])]
  if name == 'cylinder':      # a ring of three quadrilaterals
    return 6, [[0, 1, 2, 3], [2, 3, 4, 5], [4, 5, 0, 1]], [[0, 2], [1, 3]], [
        ([0, 2], [1, 3])]
  if name == 'fan':           # three quadrilaterals around a vertex
    return 7, [[0, 1, 2, 3], [0, 2, 4, 5], [0, 4, 1, 6]], [[1, 3], [3, 2]], []
  if name == 'hexes':         # two hexahedra at a face
    return 12, [list(range(8)), list(range(4, 12))], [
        [0, 1, 2, 3], [4, 6, 8, 10]], [
            ([0, 1, 2, 3], [8, 9, 10, 11]), ([0, 1, 4, 5], [2, 3, 6, 7])]
  if name == 'hexedge':       # two hexahedra at an edge
    return 14, [list(range(8)), [6, 7, 8, 9, 10, 11, 12, 13]], [
        [0, 1, 2, 3]], [([0, 1, 2, 3], [10, 11, 12, 13])]
  if name == 'hexring':       # a ring of three hexahedra
    return 12, [list(range(8)), list(range(4, 12)),
                [8, 9, 10, 11, 0, 1, 2, 3]], [
        [0, 1, 4, 5]], [([0, 1, 4, 5], [2, 3, 6, 7])]
  if name == 'grid':          # a grid of 100 by 100 quadrilaterals
    v = np.arange(101 * 101).reshape(101, 101)
    els = np.stack([v[:-1, :-1], v[:-1, 1:], v[1:, :-1], v[1:, 1:]],
                   axis=-1).reshape(-1, 4)
    edge = np.stack([v[0, :-1], v[0, 1:]], axis=-1)
    far = np.stack([v[-1, :-1], v[-1, 1:]], axis=-1)
    return 101 * 101, els.tolist(), edge.tolist(), list(zip(edge.tolist(),
                                                          far.tolist()))
  raise KeyError(name)


class Check:
  """Builds, refines and judges one mesh with symbolic coordinates."""

  def __init__(self, h, layout, ndim, kind, n, number=0, groups=True):
    self.h, self.layout, self.ndim = h, layout, ndim
    self.kind, self.n = kind, n
    nv, els, facets, links = layouts(layout)
    # vertex numbers are arbitrary: relabel
    relabel = {0: np.arange(nv), 1: np.arange(nv)[::-1],
               2: (np.arange(nv) * (5 if nv % 5 else 3)) % nv}[number]
    if len(set(relabel.tolist())) != nv:
      relabel = np.roll(np.arange(nv), 2)
    f = lambda a: relabel[np.array(a, dtype=int)]
    self.nv = nv
    self.els = f(els)
    self.syms = symmetries(ndim)
    self.fsyms = symmetries(ndim - 1)
    self.facets = [f(x) for x in facets] if groups else []
    self.links = [(f(a), f(b)) for a, b in links] if groups else []
    self.x = values_1d(kind, n)
    self.w = weights(self.x, ndim)
    self.fw = weights(self.x, ndim - 1)

  def premesh(self, orient, coords, parts=None, keep=None, link=True):
    els = np.array([e[list(self.syms[o])] for e, o in zip(self.els, orient)],
                   dtype=np.int32)
    groups = {}
    if self.facets:
      # every corner order of every facet
      groups['wall'] = np.array([f[list(s)] for f in self.facets
                                 for s in self.fsyms], dtype=np.int32)
      groups['inlet'] = np.array([self.facets[0]], dtype=np.int32)
    if keep is not None:
      groups['out'] = groups['wall'][-1:]
      groups = {k: groups[k] for k in keep}
    links = None
    if self.links and link:
      links = np.array([[a[list(s)], b[list(s)]] for a, b in self.links
                        for s in self.fsyms], dtype=np.int32)
    return Premesh.create(node_coords=coords, elements=els,
                          physical_groups=groups, periodic_links=links,
                          partitions=parts)

  def refine(self, orient, coords, parts=None, **kw):
    pm = self.premesh(orient, coords, parts, **kw)
    return pm, mesh_refiner.refine_premesh(pm, nodes_1d(self.kind, self.n))

  def shapes(self, pm, r):
    """None or what is wrong with the arrays alone."""
    nn = np.asarray(r.node_coords).shape
    if len(nn) != 2 or nn[1] != self.ndim:
      return f'node coordinates of shape {nn}'
    todo = [('elements', r.elements, (len(pm.elements), self.n ** self.ndim))]
    if set(r.physical_groups) != set(
        pm.physical_groups if self.continuous else ()):
      return f'physical groups {sorted(r.physical_groups)}'
    for k, v in r.physical_groups.items():
      todo.append((f'group {k}', v, (len(pm.physical_groups[k]),
                                     self.n ** (self.ndim - 1))))
    if (r.periodic_links is None) != (pm.periodic_links is None
                                      or not self.continuous):
      return 'periodic links lost or invented'
    if r.periodic_links is not None:
      todo.append(('links', r.periodic_links,
                   (len(pm.periodic_links), 2, self.n ** (self.ndim - 1))))
    for name, a, shape in todo:
      a = np.asarray(a)
      if a.shape != shape or a.dtype.kind not in 'iu':
        return f'{name} of shape {a.shape} and type {a.dtype}'
      if a.size and (a.min() < 0 or a.max() >= nn[0]):
        return f'{name}: node out of range'
    if r.order != self.n - 1 or not (
        r.gridpoints_1d == nodes_1d(self.kind, self.n)):
      return 'order or node family'
    if (r.partitions is None) != (pm.partitions is None) or (
        pm.partitions is not None
        and list(r.partitions) != list(pm.partitions)):
      return 'partitions changed'

  @property
  def continuous(self):
    return self.kind in ('nc', 'gll')

  def rows(self, pm, r):
    """(name, node ids, corner ids, weights) of everything refined."""
    for k, (e, c) in enumerate(zip(r.elements, pm.elements)):
      yield f'element {k}', e, c, self.w
    if not self.continuous:
      return
    for g in sorted(r.physical_groups):
      for k, (e, c) in enumerate(zip(r.physical_groups[g],
                                     pm.physical_groups[g])):
        yield f'group {g} row {k}', e, c, self.fw
    if r.periodic_links is not None:
      for k, (e, c) in enumerate(zip(r.periodic_links, pm.periodic_links)):
        for s in (0, 1):
          yield f'link {k} side {s}', e[s], c[s], self.fw

  def concrete(self, orient, coords, **kw):
    """Judges one concrete mesh; None or the defect."""
    pm, r = self.refine(orient, coords, **kw)
    bad = self.shapes(pm, r)
    if bad:
      return bad
    xs = np.asarray(r.node_coords, dtype=float)
    for name, ids, c, w in self.rows(pm, r):
      d = np.abs(xs[np.asarray(ids)] - w @ coords[np.asarray(c)]).max()
      if d > 1e-6:
        return f'{name}: a node is off by {d}'
    return self.sharing(pm, r)

  def positions(self, pm, r):
    """Flat node ids and keys of the positions, slot by slot."""
    ids, pos, seen = [], [], {}
    for name, i, c, w in self.rows(pm, r):
      for a, key in zip(i, keys(c, w)):
        if not self.continuous:
          key = (name, len(ids))
        ids.append(int(a))
        pos.append(seen.setdefault(key, len(seen)))
    return ids, pos, len(seen)

  def sharing(self, pm, r):
    ids, pos, count = self.positions(pm, r)
    a, b = {}, {}
    for i, p in zip(ids, pos):
      if a.setdefault(i, p) != p:
        return f'node {i} stands for two different points'
      if b.setdefault(p, i) != i:
        return f'nodes {b[p]} and {i} are the same point'
    return self.unused(pm, r, ids)

  def unused(self, pm, r, ids):
    if self.continuous and len(r.node_coords) != len(set(ids)):
      return f'{len(r.node_coords) - len(set(ids))} nodes belong to no element'
    if self.continuous:
      for e, c in zip(r.elements, pm.elements):
        e = np.asarray(e).reshape([self.n] * self.ndim)
        k = [0, self.n - 1]
        if e[np.ix_(*[k] * self.ndim)].reshape(-1).tolist() != list(c):
          return 'the original corners do not keep their numbers'

  def symbolic(self, orient, **kw):
    h = self.h
    where = dict(layout=self.layout, orientation=[int(o) for o in orient],
                 nodes=f'{self.kind}{self.n}', **kw)
    coords = jsym.poly_vars('x', (self.nv, self.ndim))
    try:
      pm, r = self.refine(orient, coords, **kw)
    except (TypeError, AttributeError) as e:
      raise Unsupported(f'coordinates do not stay symbolic: {e!r:.80}')
    bad = self.shapes(pm, r)
    if bad:
      h.fail(bad, where)
    got, want = [], []
    done = set()
    for name, ids, c, w in self.rows(pm, r):
      for i, row in zip(ids, w):
        # the same node at the same position again is the same obligation
        key = (int(i), keys(c, [row])[0])
        if key in done:
          continue
        done.add(key)
        for d in range(self.ndim):
          got.append(r.node_coords[int(i), d])
          want.append(sum(
              (coords[int(v), d] * float(a) for v, a in zip(c, row) if a),
              0.0))
    g = np.empty(len(got), dtype=object)
    v = np.empty(len(got), dtype=object)
    g[:], v[:] = got, want

    def run(env):
      c = np.array([[env.get(f'x[{i},{d}]', 0.0) for d in range(self.ndim)]
                    for i in range(self.nv)])
      return self.concrete(orient, c, **kw)
    h.close([g], [v], run, tol=1e-9, label='node positions')
    # slot by slot: the same node exactly at the same position
    ids, pos, count = self.positions(pm, r)
    # numbers are a function of positions, and positions of numbers
    f = z3.Function('node', z3.IntSort(), z3.IntSort())
    back = z3.Function('point', z3.IntSort(), z3.IntSort())
    STATS.obligations += 1
    pairs = sorted(set(zip(ids, pos)))
    m = solve([z3.And(*[z3.And(f(p) == a, back(a) == p) for a, p in pairs])])
    if m is None:
      h.fail(self.concrete(orient, h.nprng.uniform(-1, 1, (self.nv, self.ndim)),
                           **kw)
             or 'nodes are not shared exactly', where)
    bad = self.unused(pm, r, ids)
    if bad:
      h.fail(bad, where)


def orientations(h, *, layout, ndim, kind, n, number=0, sweep='first'):
  """Every orientation of the elements of a layout."""
  h.func('mesh_refiner.refine_premesh', '_MeshRefiner._refine_facets',
         'facet_util.get_orderings_mapping')
  h.bound('2 or 3 elements sharing vertices, edges or faces, order 1 to 4; '
          'vertex coordinates in [-1, 1]')
  c = Check(h, layout, ndim, kind, n, number)
  ne, ns = len(c.els), len(c.syms)
  # which corner orders each element takes
  if sweep == 'all':
    ranges = [range(ns)] * ne
  else:   # one element in all orders, the others in a few
    few = sorted({0, 1 % ns, ns // 2 + 1 if ns > 2 else ns - 1, ns - 1})
    ranges = [few if q != 1 else range(ns) for q in range(ne)]
    if sweep == 'first':
      ranges = [[0] if q == 0 else r for q, r in enumerate(ranges)]
  syms, cons = dse.ints('orientation', (ne,))
  for s, r in zip(syms, ranges):
    cons.append(z3.Or(*[dse.val(s) == k for k in r]))
  h.smoke(lambda: c.concrete(
      [int(h.nprng.choice(list(r))) for r in ranges],
      h.nprng.uniform(-1, 1, (c.nv, ndim))))

  def run(path):
    c.symbolic([int(s) for s in syms])
  k = dse.explore(run, cons)
  h.sample(layout=layout, nodes=f'{kind}{n}', orientations=k)


def extras(h, *, layout, ndim, kind, n):
  """Every choice of groups, links and partitions to carry along."""
  h.func('mesh_refiner.refine_premesh', '_MeshRefiner.refine')
  h.bound('every subset of three groups, with and without links and labels')
  c = Check(h, layout, ndim, kind, n)
  names = ('wall', 'inlet', 'out')
  pick, cons = dse.ints('present', (5,), 0, 1)
  orient = [0] + [len(c.syms) - 1] * (len(c.els) - 1)

  def options(bits):
    return dict(keep=[k for k, b in zip(names, bits) if b],
                link=bool(bits[3]),
                parts=np.arange(len(c.els))[::-1] if bits[4] else None)
  for bits in itertools.product((0, 1), repeat=5):
    if sum(bits) < 2:
      h.smoke(lambda bits=bits: c.concrete(
          orient, h.nprng.uniform(-1, 1, (c.nv, ndim)), **options(bits)))

  def run(path):
    c.symbolic(orient, **options([int(p) for p in pick]))
  k = dse.explore(run, cons)
  h.sample(layout=layout, nodes=f'{kind}{n}', options=k)


def large(h, *, layout, ndim, kind, n):
  """Many nodes: one concrete mesh."""
  h.func('mesh_refiner.refine_premesh')
  c = Check(h, layout, ndim, kind, n)
  orient = [int(h.nprng.integers(len(c.syms))) for _ in c.els]
  h.smoke(lambda: c.concrete(orient, h.nprng.uniform(-1, 1, (c.nv, ndim))))
  solve([False])


def rejects(h):
  """Only first-order meshes can be refined."""
  h.func('mesh_refiner.refine_premesh')
  for ndim, order in ((1, 2), (2, 2), (2, 3), (3, 2)):
    coords, els, _, _ = meshes.grid((1,) * ndim, order)
    pm = Premesh.create(node_coords=coords, elements=els)
    try:
      mesh_refiner.refine_premesh(pm, Nodes1D.create(3, KINDS['nc']))
    except ValueError:
      continue
    h.fail(f'refined a mesh of order {order}', dict(ndim=ndim))
  solve([False])


def partition(h, *, n):
  """Partition labels carry over for all labels."""
  h.func('mesh_refiner.refine_premesh')
  h.bound('all partition labels')
  c = Check(h, 'quads', 2, 'gll', n)
  parts, cons = dse.ints('label', (2,), 0, 1000)

  def run(path):
    coords = np.random.default_rng(0).uniform(-1, 1, (c.nv, 2))
    pm, r = c.refine([0, 3], coords, parts)
    if r.partitions is None or len(r.partitions) != len(parts):
      h.fail('partition labels lost')
    for a, b in zip(parts, r.partitions):
      STATS.obligations += 1
      m = path.proves(dse.val(a) == dse.val(b))
      if m is not None:
        h.fail('partition labels change', dict(labels=dse.value(
            m, parts).tolist()))
  dse.explore(run, cons)


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(layout, ndim, kind, n, number=0, sweep='first'):
    out.append((f'{layout} {kind}{n} numbering {number}, {sweep}',
                orientations, dict(layout=layout, ndim=ndim, kind=kind, n=n,
                                   number=number, sweep=sweep)))
  for layout in ('segments', 'loop', 'star'):
    for kind, n in (('nc', 2), ('nc', 3), ('gll', 4), ('gll', 5), ('gl', 2),
                    ('one', 1)):
      add(layout, 1, kind, n, sweep='all')
  for layout in ('quads', 'corner'):
    for kind, n in (('nc', 2), ('nc', 3), ('gll', 4), ('nc', 4), ('gll', 5),
                    ('gl', 3), ('one', 1)):
      for number in (0, 1, 2) if (kind, n) == ('gll', 4) else (0,):
        add(layout, 2, kind, n, number, 'all')
  add('fan', 2, 'gll', 4, 0, 'some')
  add('cylinder', 2, 'gll', 4, 0, 'some')
  add('cylinder', 2, 'nc', 3, 2, 'first')
  add('fan', 2, 'nc', 3, 1, 'all' if th else 'some')
  add('hexes', 3, 'gll', 4, 0, 'all' if th else 'some')
  add('hexes', 3, 'nc', 3, 1, 'all' if th else 'first')
  add('hexes', 3, 'nc', 2, 0)
  add('hexes', 3, 'gl', 2, 0)
  add('hexes', 3, 'one', 1, 0)
  add('hexes', 3, 'gll', 4, 2, 'some' if th else 'first')
  add('hexes', 3, 'gll', 5, 0, 'some' if th else 'first')
  add('hexedge', 3, 'gll', 4, 0, 'all' if th else 'some')
  add('hexring', 3, 'gll', 4, 0, 'some' if th else 'first')
  for layout, ndim, kind, n in [
      ('segments', 1, 'gll', 4), ('quads', 2, 'nc', 3), ('quads', 2, 'gl', 2),
      ('hexes', 3, 'nc', 3), ('hexes', 3, 'nc', 2)]:
    out.append((f'extras {layout} {kind}{n}', extras,
                dict(layout=layout, ndim=ndim, kind=kind, n=n)))
  for layout, ndim, kind, n in [('grid', 2, 'gll', 4), ('hexes', 3, 'gll', 14),
                                ('quads', 2, 'gll', 19)]:
    out.append((f'large {layout} {kind}{n}', large,
                dict(layout=layout, ndim=ndim, kind=kind, n=n)))
  for n in (2, 3, 4):
    out.append((f'partition labels {n}', partition, dict(n=n)))
  out.append(('rejects', rejects, {}))
  return out
