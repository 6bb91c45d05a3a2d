"""C07: a partitioned mesh is the serial mesh, distributed."""
import itertools

import numpy as np
import z3

from vlib import boot, dse, jsym, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.dse import val
from vlib.harness import Unreproduced, compare
from vlib.jsym import obj_array
from vlib.sym import POISON, Poly, STATS
from swirl_fem.core import gather_scatter as gs
from swirl_fem.core.fespace import FiniteElementSpace
from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
from swirl_fem.core.premesh import Premesh

AX = 'i'
CONFIGS = {
    # name: (shape, order, periodic axes)
    'line3': ((3,), 1, ()),
    'line4': ((4,), 1, ()),
    'line2 quadratic': ((2,), 2, ()),
    'line3 periodic': ((3,), 1, (0,)),
    'line4 periodic': ((4,), 1, (0,)),
    'square 2x2': ((2, 2), 1, ()),
    'strip 3x1': ((3, 1), 1, ()),
    'strip 3x1 periodic': ((3, 1), 1, (0,)),
    'square 2x2 periodic x': ((2, 2), 1, (0,)),
    'square 2x2 periodic xy': ((2, 2), 1, (0, 1)),
    'strip 1x3 quadratic': ((1, 3), 2, ()),
    'strip 2x1 cubic periodic': ((2, 1), 3, (0,)),
    'cube 2x1x1': ((2, 1, 1), 1, ()),
    'cube 3x1x1 periodic': ((3, 1, 1), 1, (0,)),
    'cube 2x2x1 quadratic': ((2, 2, 1), 2, ()),
}


def build(cfg, seed):
  shape, order, periodic = CONFIGS[cfg]
  coords, els, sides, links = meshes.grid(shape, order, periodic=periodic,
                                          warp=meshes.warp_smooth)
  # elements and nodes in a scrambled numbering
  rng = np.random.default_rng(seed)
  perm = rng.permutation(len(coords))
  inv = np.argsort(perm)
  groups = {}
  for (ax, side), f in sides.items():
    if ax not in periodic:
      groups[f'side{ax}{side}'] = inv[f].astype(np.int32)
  links = None if links is None else inv[links].astype(np.int32)
  return coords[perm], inv[els].astype(np.int32), groups, links, order


def premesh(data, partitions=None):
  coords, els, groups, links, order = data
  return Premesh.create(
      node_coords=coords, elements=els, physical_groups=groups,
      periodic_links=links, partitions=partitions,
      gridpoints_1d=Nodes1D.create(num_points=order + 1,
                                   node_type=NodeType.NEWTON_COTES))


def to_np(mesh):
  return jax.tree_util.tree_map(np.asarray, mesh)


def collides(rep, els, labels):
  """Whether a node and its periodic image fall into the same partition."""
  for p in set(labels):
    ns = sorted(set(els[[i for i, l in enumerate(labels) if l == p]].flat))
    if len({int(rep[n]) for n in ns}) < len(ns):
      return True
  return False


def structure(pm, serial, data, labels):
  """Compares the layout of the partitioned mesh with the serial one.

  Returns (detail, locals) with the serial node of every local node and the
  serial element of every local element (or -1).
  """
  coords, els, groups, links, order = data
  nparts = max(labels) + 1
  nc, el, ni = pm.node_coords, pm.elements, pm.node_indices
  if not (len(nc) == len(el) == len(ni) == nparts):
    return f'{len(el)} partitions instead of {nparts}', None
  key = {tuple(np.round(c, 9)): k for k, c in enumerate(coords)}
  lnode = np.full(ni.shape, -1)
  lelem = np.full(el.shape[:2], -1)
  for p in range(nparts):
    for i in range(ni.shape[1]):
      if ni[p, i] == gs.SENTINEL:
        continue
      s = key.get(tuple(np.round(nc[p, i], 9)))
      if s is None:
        return f'partition {p} node {i}: unknown coordinates {nc[p, i]}', None
      lnode[p, i] = s
      if ni[p, i] != serial.node_indices[s]:
        return (f'partition {p}: the node at {nc[p, i]} has id {ni[p, i]} '
                f'instead of {serial.node_indices[s]}'), None
    live = [x for x in lnode[p] if x >= 0]
    if len(set(live)) != len(live):
      return f'partition {p} stores a node twice', None
    for name in groups:
      m = np.asarray(pm.physical_masks[name])
      for i in range(ni.shape[1]):
        want = lnode[p, i] >= 0 and bool(
            serial.physical_masks[name][lnode[p, i]])
        if bool(m[p, i]) != want:
          return (f'partition {p} node {i}: mask {name} is {bool(m[p, i])}'
                  ), None
    want = sorted(i for i, l in enumerate(labels) if l == p)
    seen = []
    for e in range(el.shape[1]):
      row = el[p, e]
      if (row == gs.SENTINEL).all():
        continue
      if (row == gs.SENTINEL).any() or row.max() >= ni.shape[1]:
        return f'partition {p} element {e} is {row.tolist()}', None
      g = [int(lnode[p, i]) for i in row]
      hit = [k for k in range(len(els)) if els[k].tolist() == g]
      if not hit:
        return (f'partition {p} element {e} has nodes {g}, which is no '
                'element of the mesh'), None
      seen.append(hit[0])
      lelem[p, e] = hit[0]
    if sorted(seen) != want:
      return f'partition {p} holds elements {seen} instead of {want}', None
    used = {int(i) for r in el[p] for i in r if i >= 0}
    if {i for i in range(ni.shape[1]) if lnode[p, i] >= 0} != used:
      return f'partition {p} stores nodes none of its elements has', None
  return None, (lnode, lelem)


def fields(serial, data, rep, lnode, lelem, mk):
  """Serial node values and element values and their distributed versions."""
  coords, els = data[0], data[1]
  base = {r: mk(f'u{r}') for r in sorted(set(rep.tolist()))}
  u = np.array([base[r] for r in rep], dtype=object)
  w = obj_array(els.shape, lambda i: mk(f'w{i[0]}_{i[1]}'))
  pu = obj_array(lnode.shape, lambda i: u[lnode[i]] if lnode[i] >= 0 else POISON)
  pw = obj_array(lelem.shape + els.shape[1:],
                 lambda i: w[lelem[i[:2]]][i[2]] if lelem[i[:2]] >= 0 else
                 POISON)
  return u, w, pu, pw


def ops_serial(mesh, order, ndim):
  quad = Quadrature1D.create(num_points=order + 1,
                             quadrature_type=NodeType.GAUSS_LEGENDRE)

  def f(u, w):
    V = FiniteElementSpace.create(mesh=mesh, quadrature=quad)
    q = V.scalar_function(mesh.gather(u))
    return (mesh.gather(u), mesh.exchange(mesh.scatter(w)),
            V.integrate(lambda x: q(x) * q(x)), V.integrate(lambda x: q(x) * x[0]))
  return f


def partition_harness(h, *, cfg, parts, first):
  h.func('Premesh.finalize', 'gather_scatter.group_by_partitions',
         'gather_scatter.get_local_elements', 'premesh._mask',
         'gather_scatter.get_exchange_indices', 'Mesh.gather', 'Mesh.scatter',
         'Mesh.exchange', 'FiniteElementSpace.integrate')
  h.bound('all assignments of 2-4 elements to at most 3 partitions (4 in '
          'thorough), including empty and single-element ones, on the listed '
          '1-D to 3-D meshes of orders 1-3; all nodal and element values')
  h.assume('assignments that put both ends of a periodic link into one '
           'partition are rejected with NotImplementedError (documented limit)')
  data = build(cfg, 7)
  coords, els, groups, links, order = data
  ndim = coords.shape[1]
  rep = meshes.identified(len(coords), links)
  serial = to_np(premesh(data).finalize())
  ne = len(els)
  sym_labels, cons = dse.ints('part', (ne,), 0, parts - 1)
  if first is not None:
    cons += [sym_labels[k].e == v for k, v in enumerate(first)]
  f = ops_serial(serial, order, ndim)
  count = [0]

  def finalize(labels):
    return to_np(premesh(data, labels).finalize(axis_name=AX))

  def lanes_fn(quad):
    def g(mesh, u, w):
      V = FiniteElementSpace.create(mesh=mesh, quadrature=quad)
      q = V.scalar_function(mesh.gather(u))
      ps = lambda v: jax.lax.psum(v, AX)
      return (mesh.gather(u), mesh.exchange(mesh.scatter(w)),
              ps(V.integrate(lambda x: q(x) * q(x))),
              ps(V.integrate(lambda x: q(x) * x[0])))
    return g
  quad = Quadrature1D.create(num_points=order + 1,
                             quadrature_type=NodeType.GAUSS_LEGENDRE)

  def expected(out, lnode, lelem):
    """The serial results, laid out like the distributed ones."""
    gu, ex, i1, i2 = out
    n = len(lnode)
    a = obj_array(lelem.shape + gu.shape[1:], lambda i: gu[lelem[i[:2]]][i[2]]
                  if lelem[i[:2]] >= 0 else 0.0)
    b = obj_array(lnode.shape, lambda i: ex[lnode[i]] if lnode[i] >= 0 else 0.0)
    i1, i2 = (np.asarray(x, dtype=object)[()] for x in (i1, i2))
    return [a, b, [i1] * n, [i2] * n]

  def concrete(labels):
    labels = np.asarray(labels)
    try:
      pm = finalize(labels)
    except NotImplementedError:
      if collides(rep, els, labels.tolist()):
        return None
      return f'partitions {labels.tolist()} are rejected'
    d, loc = structure(pm, serial, data, labels.tolist())
    if d:
      return f'partitions {labels.tolist()}: {d}'
    lnode, lelem = loc
    rng = h.nprng
    u, w, pu, pw = fields(serial, data, rep, lnode, lelem,
                          lambda n: float(rng.uniform(0.5, 1.5)))
    tof = lambda x: np.array([np.nan if v is POISON else v for v in x.flat],
                             dtype=np.float64).reshape(x.shape)
    want = [np.asarray(v) for v in f(jnp.asarray(tof(u)), jnp.asarray(tof(w)))]
    mesh = jax.tree_util.tree_map(jnp.asarray, pm)
    got = [np.asarray(v) for v in jax.pmap(lanes_fn(quad), axis_name=AX)(
        mesh, tof(pu), tof(pw))]
    exp = expected(want, lnode, lelem)
    g = np.where(lnode >= 0, got[1], 0.0)
    d = compare([got[0], g, got[2], got[3]],
                [np.asarray(np.array(v, dtype=object), dtype=np.float64)
                 for v in exp], 1e-6)
    return d and f'partitions {labels.tolist()}: {d}'

  some = ([k % parts for k in range(ne)], [parts - 1] * ne,
          [(ne - 1 - k) % parts for k in range(ne)])
  if first is None or not any(first):
    for s in some:
      h.smoke(lambda s=s: concrete(s))

  # what the serial mesh gives, once, over symbols
  def mk(name):
    return Poly.var(name)
  u0, w0 = fields(serial, data, rep, np.full((1, 1), -1), np.full((1, 1), -1),
                  mk)[:2]
  base = jsym.call(f, u0, w0)

  def run(path):
    count[0] += 1
    try:
      pm = finalize(sym_labels)
      labels = dse.value(path.model(), sym_labels)
      rejected = False
    except NotImplementedError:
      rejected = True
      labels = dse.value(path.model(), sym_labels)
    m = path.proves(z3.And(*[s.e == int(v) for s, v in zip(sym_labels, labels)]))
    if m is not None:
      # decided without looking at every label: settle the rest
      labels = np.array([int(s) for s in sym_labels])
    if rejected:
      if collides(rep, els, labels.tolist()):
        return
      h.fail(concrete(labels) or 'rejected', {'partitions': labels})
    d, loc = structure(pm, serial, data, labels.tolist())
    if d:
      d2 = concrete(labels)
      if d2 is None:
        raise Unreproduced(f'{h.name}: {labels.tolist()}: {d}')
      h.fail(d2, {'partitions': labels})
    lnode, lelem = loc
    u, w, pu, pw = fields(serial, data, rep, lnode, lelem, mk)
    got = jsym.call_lanes(lanes_fn(quad), AX, len(lnode), (pm, pu, pw))
    exp = expected(base, lnode, lelem)
    g1 = jsym.to_obj(got[1]).copy()
    g1[lnode < 0] = 0.0
    h.close([got[0], g1, got[2], got[3]],
            [np.array(v, dtype=object) for v in exp],
            lambda env: concrete(labels), tol=1e-7,
            label=f'partitions {labels.tolist()}')

  dse.explore(run, cons, budget=700)
  h.sample(mesh=cfg, partitions=parts, assignments=count[0])


def local_numbering(h, *, shape, first=None):
  """get_local_elements for arbitrary connectivity."""
  h.func('gather_scatter.get_local_elements')
  h.bound('local numbering: all connectivities (any ids, orders, repeats and '
          'padding) of at most 5 slots in 1-3 partitions')
  n = int(np.prod(shape))
  els, cons = dse.ints('e', shape, -1, n)
  if first is not None:
    a, b = els.reshape(-1)[:2]
    cons.append({'<': a.e < b.e, '=': a.e == b.e, '>': a.e > b.e}[first])
  count = [0]

  def concrete(v):
    ni, le = gs.get_local_elements(np.asarray(v))
    ni, le = np.asarray(ni), np.asarray(le)
    if le.shape != v.shape or len(ni) != len(v):
      return f'shapes {ni.shape} and {le.shape} for {v.shape}'
    for p in range(len(v)):
      used = set()
      for i in np.ndindex(*v.shape[1:]):
        l = le[p][i]
        if (l == -1) != (v[p][i] == -1):
          return f'slot {i} of partition {p} of {v.tolist()} becomes {l}'
        if l != -1:
          if not 0 <= l < ni.shape[1]:
            return f'local index {l} out of range'
          used.add(int(l))
          if ni[p, l] != v[p][i]:
            return (f'node {v[p][i]} of partition {p} becomes local {l}, '
                    f'which stands for {ni[p, l]}')
      live = [int(x) for x in ni[p] if x != -1]
      if len(set(live)) != len(live):
        return f'partition {p}: ids {ni[p].tolist()} repeat'
      if {k for k in range(ni.shape[1]) if ni[p, k] != -1} != used:
        return f'partition {p}: ids {ni[p].tolist()} contain unused nodes'
    return None

  rv = h.nprng.integers(-1, n, size=shape)
  h.smoke(lambda: concrete(rv))

  def run(path):
    count[0] += 1
    ni, le = gs.get_local_elements(els)
    claims = []
    if np.shape(le) != tuple(shape):
      h.fail(f'shape {np.shape(le)}', {'elements': dse.value(path.model(), els)})
    for p in range(shape[0]):
      row = list(ni[p])
      for i in np.ndindex(*shape[1:]):
        e, l = val(els[p][i]), val(le[p][i])
        claims.append((l == -1) == (e == -1))
        claims.append(z3.Or(e == -1, *[z3.And(l == k, val(x) == e)
                                       for k, x in enumerate(row)]))
      for k, x in enumerate(row):
        for y in row[:k]:
          claims.append(z3.Or(val(x) == -1, val(x) != val(y)))
        claims.append(z3.Or(val(x) == -1, *[val(els[p][i]) == val(x)
                                            for i in np.ndindex(*shape[1:])]))
    STATS.obligations += len(claims)
    m = path.proves(z3.And(*claims))
    if m is not None:
      v = dse.value(m, els)
      d = concrete(v)
      if d is None:
        raise Unreproduced(f'{h.name}: {v.tolist()}')
      h.fail(d, {'elements': v})
  dse.explore(run, cons, budget=600)
  h.sample(shape=shape, paths=count[0])


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  quick = ['line3', 'line4', 'line2 quadratic', 'line3 periodic',
           'line4 periodic', 'square 2x2', 'strip 3x1', 'strip 3x1 periodic',
           'square 2x2 periodic x', 'square 2x2 periodic xy',
           'strip 1x3 quadratic', 'strip 2x1 cubic periodic', 'cube 2x1x1',
           'cube 3x1x1 periodic']
  for c in (list(CONFIGS) if th else quick):
    shape = CONFIGS[c][0]
    ne = int(np.prod(shape))
    big = ne == 4
    for parts in ((2, 3, 4) if th else (3,) if not big or len(shape) == 1 else
                  (2,) if c != 'square 2x2 periodic xy' else (4,)):
      if parts > ne:
        continue
      heavy = parts ** ne > 20
      firsts = [None]
      if heavy:
        firsts = list(itertools.product(range(parts), repeat=2 if
                                        parts ** ne > 100 else 1))
      for f in firsts:
        out.append((f'{c} parts={parts}' + (f' first={f}' if f else ''),
                    partition_harness, dict(cfg=c, parts=parts, first=f)))
  for s in [(1, 1, 3), (2, 1, 2), (2, 2, 1), (3, 1, 1), (1, 4)] + (
      [(2, 1, 3), (1, 2, 2), (3, 1, 2)] if th else []):
    if np.prod(s) > 3:
      for f in '<=>':
        out.append((f'numbering {s} {f}', local_numbering,
                    dict(shape=s, first=f)))
    else:
      out.append((f'numbering {s}', local_numbering, dict(shape=s)))
  return out
