"""C11: graph partitioning sees exactly the element adjacency."""
import numpy as np
import z3

from vlib import dse
from vlib.dse import val, value
from vlib.harness import Unreproduced
from vlib.query import solve
from vlib.sym import STATS, Unsupported
from swirl_fem.common import mesh_partitioner, premesh_commons
from swirl_fem.core.premesh import Premesh
from checks.c25 import patched

dse.HASH_REALISES = True


class Metis:
  """Stands in for the partitioner: records the graph, answers as told."""

  def __init__(self, labels):
    self.labels = labels
    self.calls = []

  def part_graph(self, nparts, adjacency=None, xadj=None, adjncy=None,
                 vweights=None, eweights=None, *a, **k):
    if adjacency is not None and hasattr(adjacency, 'adj_starts'):
      xadj, adjncy = adjacency.adj_starts, adjacency.adjacent
      adjacency = None
    if adjacency is None:
      x = [int(v) for v in xadj]
      adjacency = [list(adjncy[a:b]) for a, b in zip(x, x[1:])]
    if isinstance(adjacency, dict):
      if sorted(adjacency) != list(range(len(adjacency))):
        raise Unsupported('vertices that are not numbered from zero')
      adjacency = [adjacency[i] for i in range(len(adjacency))]
    adj = [[int(t) for t in row] for row in adjacency]
    self.calls.append((nparts, adj, vweights, eweights))
    return 0, list(self.labels)


def partition(elements, labels, nparts, coords, groups, links):
  pm = Premesh.create(node_coords=coords, elements=elements,
                      physical_groups=groups, periodic_links=links)
  metis = Metis(labels)
  with patched((mesh_partitioner.pymetis, 'part_graph', metis.part_graph)):
    r = mesh_partitioner.partition(pm, nparts)
  if len(metis.calls) != 1:
    raise Unsupported(f'{len(metis.calls)} partitioner calls')
  return pm, r, metis.calls[0]


def unchanged(pm, r):
  for name in ('order', 'gridpoints_1d'):
    if getattr(pm, name) != getattr(r, name):
      return f'{name} changed'
  for name in ('node_coords', 'elements', 'periodic_links'):
    a, b = getattr(pm, name), getattr(r, name)
    if (a is None) != (b is None) or a is not None and (
        a is not b and (np.shape(a) != np.shape(b)
                        or not all(x is y or x == y for x, y in zip(
                            np.asarray(a).flat, np.asarray(b).flat)))):
      return f'{name} changed'
  if set(pm.physical_groups) != set(r.physical_groups) or any(
      not np.array_equal(v, r.physical_groups[k])
      for k, v in pm.physical_groups.items()):
    return 'physical groups changed'


def judge_graph(elements, call, nparts, labels, r):
  """None or what a concrete run has wrong."""
  n, adj, vw, ew = call
  if n != nparts:
    return f'asked for {n} parts instead of {nparts}'
  if len(adj) != len(elements):
    return f'{len(adj)} vertices for {len(elements)} elements'
  for w in (vw, ew):
    if w is not None and len(set(map(int, w))) > 1:
      return 'unequal weights'
  for s, row in enumerate(adj):
    want = {t for t in range(len(elements)) if t != s
            and set(elements[s]) & set(elements[t])}
    if set(row) != want or len(row) != len(want):
      return f'element {s} is joined to {sorted(row)} instead of {sorted(want)}'
  if list(map(int, r.partitions)) != list(map(int, labels)):
    return f'labels {list(r.partitions)} instead of {list(labels)}'
  if not isinstance(r.partitions, np.ndarray):
    return 'the labels are no array'


def adjacency(h, *, ne, width, nodes):
  """Graph and labels, for all connectivities."""
  h.func('mesh_partitioner.partition')
  h.bound('1 to 4 elements of 2 nodes and 1 to 3 of 4 nodes, every '
          'connectivity up to renumbering; every label vector')
  h.assume('an element has distinct nodes')
  els, cons = dse.ints('node', (ne, width))
  ndim = {2: 1, 4: 2, 8: 3}[width]
  coords = np.zeros((nodes, ndim))
  nparts = 3
  # numbered in the order of appearance
  flat = list(els.reshape(-1))
  for k, x in enumerate(flat):
    if k == 0:
      cons.append(x.e == 0)
    else:
      cons += [x.e >= 0, x.e < nodes,
               z3.Or(x.e <= 0, *[x.e <= y.e + 1 for y in flat[:k]])]
  for e in els:
    cons.append(z3.Distinct(*[x.e for x in e]))
  if width == 4:
    # within an element, new nodes are listed after old ones
    first = [x.e for x in els[0]]
    cons += [x == k for k, x in enumerate(first)]
    for k in range(1, ne):
      cons += [a.e < b.e for a, b in zip(els[k], els[k][1:])]
  labels, lc = dse.ints('label', (ne,), 0, nparts - 1)
  cons += lc
  groups = {'wall': np.zeros((1, width // 2), int)}

  def concrete(e, l):
    pm, r, call = partition(np.asarray(e), list(map(int, l)), nparts, coords,
                            groups, None)
    return judge_graph(np.asarray(e).tolist(), call, nparts, l, r) or unchanged(
        pm, r)

  def sample():
    return concrete([h.nprng.permutation(nodes)[:width] for _ in range(ne)],
                    h.nprng.integers(0, nparts, ne))
  h.smoke(sample)

  def run(path):
    pm, r, (n, adj, vw, ew) = partition(els, list(labels), nparts, coords,
                                        groups, None)
    bad = unchanged(pm, r)
    claim = []
    if n != nparts:
      bad = bad or f'asked for {n} parts'
    if len(adj) != ne:
      bad = bad or f'{len(adj)} vertices'
    got = list(np.asarray(r.partitions, dtype=object).reshape(-1))
    if len(got) != ne:
      bad = bad or f'{len(got)} labels'
    if any(len(set(row)) != len(row) for row in adj):
      bad = bad or 'an edge twice'
    for w in (vw, ew):
      if w is not None and len(set(map(int, w))) > 1:
        bad = bad or 'unequal weights'
    if bad is None:
      for s in range(ne):
        for t in range(ne):
          share = z3.Or(*[a.e == b.e for a in els[s] for b in els[t]])
          claim.append(share == (t in adj[s]) if s != t
                       else z3.BoolVal(t not in adj[s]))
      claim += [val(a) == val(b) for a, b in zip(got, labels)]
    STATS.obligations += len(claim) or 1
    m = path.proves(z3.And(*claim)) if bad is None else path.model()
    if m is None:
      return
    e, l = value(m, els), value(m, labels)
    d = concrete(e, l)
    if d is None:
      raise Unreproduced(f'{bad} for {e.tolist()} labels {l.tolist()}')
    h.fail(d, dict(elements=e.tolist(), labels=l.tolist()))
  n = dse.explore(run, cons)
  h.sample(elements=ne, nodes_per_element=width, paths=n)


def finalised(h, *, n, ndim, nparts):
  """The result finalises, with the real partitioner."""
  h.func('mesh_partitioner.partition')

  def one():
    pm = premesh_commons.unit_cube_mesh(n, ndim=ndim, periodic_dims=(0,))
    r = mesh_partitioner.partition(pm, nparts)
    bad = unchanged(pm, r)
    if bad:
      return bad
    l = np.asarray(r.partitions)
    if l.shape != (len(pm.elements),) or l.min() < 0 or l.max() >= nparts:
      return f'labels {l}'
    if len(set(l.tolist())) != nparts:
      return None              # an empty part cannot be finalised
    mesh = r.finalize('i')
    got = np.concatenate([np.asarray(mesh.node_coords)[p][np.asarray(
        mesh.elements)[p]].reshape(-1, 2 ** ndim, ndim) for p in range(nparts)])
    for e in pm.node_coords[pm.elements]:
      if np.abs(got - e).max(axis=(1, 2)).min() > 1e-5:
        return f'element {e.tolist()} is lost'
  h.smoke(one)
  solve([False])


def many(h):
  """Many elements and parts; one part; the real partitioner and a stand-in."""
  h.func('mesh_partitioner.partition')
  h.assume('concrete grids of up to 900 elements, up to 600 parts, labels '
           'beyond 16 bits, one part')

  def told(n, ndim, nparts, step):
    pm = premesh_commons.unit_cube_mesh(n, ndim=ndim)
    ne = len(pm.elements)
    labels = [int(k * step % nparts) for k in range(ne)]
    els = np.asarray(pm.elements)
    pm, r, call = partition(els, labels, nparts, pm.node_coords,
                            dict(pm.physical_groups), pm.periodic_links)
    return judge_graph(els.tolist(), call, nparts, labels, r) or unchanged(
        pm, r)

  def real(n, ndim, nparts):
    # periodic images within one partition are documented as unsupported
    pm = premesh_commons.unit_cube_mesh(
        n, ndim=ndim, periodic_dims=(ndim - 1,) if nparts > 1 else ())
    r = mesh_partitioner.partition(pm, nparts)
    bad = unchanged(pm, r)
    if bad:
      return bad
    l = np.asarray(r.partitions)
    if r.partitions is None or l.shape != (len(pm.elements),):
      return f'{nparts} parts of {n ** ndim} elements: labels {r.partitions}'
    if l.min() < 0 or l.max() >= nparts:
      return f'{nparts} parts: labels from {l.min()} to {l.max()}'
    if nparts == 1:
      mesh = r.finalize('i')
      if np.asarray(mesh.elements).shape[:2] != (1, len(pm.elements)):
        return f'one part: elements of shape {np.shape(mesh.elements)}'
      return None
    size = np.bincount(l, minlength=nparts)
    if size.max() > 2 * len(l) / nparts + 2:
      return f'{nparts} parts of {len(l)} elements: one has {size.max()}'
  for args in ((24, 2, 576, 5), (18, 2, 100000, 331), (7, 3, 300, 11),
               (300, 1, 256, 3), (3, 2, 1, 1), (9, 2, 9, 2)):
    h.smoke(lambda args=args: told(*args), 1)
  for args in ((30, 2, 200), (8, 3, 130), (5, 2, 1), (3, 3, 1), (6, 1, 1),
               (12, 2, 12)):
    h.smoke(lambda args=args: real(*args), 1)
  h.sample()
  solve([False])


def harnesses(tier):
  th = tier == 'thorough'
  out = [('many', many, {})]
  for ne, width, nodes in [(1, 2, 2), (2, 2, 4), (3, 2, 6), (4, 2, 5),
                           (3, 2, 2), (4, 2, 3),
                           (2, 4, 8), (3, 4, 7), (1, 4, 4)] + (
                               [(4, 2, 8), (3, 4, 9), (2, 8, 16), (5, 2, 4), (5, 2, 5)]
                               if th else []):
    out.append((f'{ne} elements of {width} among {nodes} nodes', adjacency,
                dict(ne=ne, width=width, nodes=nodes)))
  for n, ndim in ((4, 2), (3, 2), (6, 1), (2, 3)):
    out.append((f'finalised {ndim}-D {n}', finalised,
                dict(n=n, ndim=ndim, nparts=2)))
  return out
