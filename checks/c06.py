"""C06: periodic links identify exactly the connected nodes."""
import itertools

import networkx as nx
import numpy as np
import z3

from vlib import boot, dse
from vlib.dse import val
from swirl_fem.core import gather_scatter as gs
from vlib.sym import STATS


def closure(links):
  """Reachability formula over the endpoints of the links."""
  f, _, k = links.shape
  ends = [val(links[i, s, j]) for i in range(f) for j in range(k)
          for s in (0, 1)]
  m = len(ends)
  r = [[z3.BoolVal(False)] * m for _ in range(m)]
  for a in range(m):
    for b in range(m):
      linked = a // 2 == b // 2
      r[a][b] = z3.BoolVal(True) if linked else ends[a] == ends[b]
  for c in range(m):
    for a in range(m):
      for b in range(m):
        r[a][b] = z3.simplify(z3.Or(r[a][b], z3.And(r[a][c], r[c][b])))

  def reach(x, y):
    x, y = val(x), val(y)
    return z3.Or(x == y, *[z3.And(x == ends[a], y == ends[b], r[a][b])
                           for a in range(m) for b in range(m)])

  def linked(x):
    return z3.Or(*[val(x) == e for e in ends])
  return reach, linked


def concrete_check(ids, links):
  """The claim on concrete inputs; None or a description."""
  got = np.asarray(gs.get_unique_node_indices(ids, links))
  if got.shape != ids.shape:
    return f'shape {got.shape} instead of {ids.shape}'
  g = nx.Graph()
  g.add_nodes_from(ids.reshape(-1).tolist())
  for i in range(links.shape[0]):
    for j in range(links.shape[2]):
      g.add_edge(int(links[i, 0, j]), int(links[i, 1, j]))
  a, b = ids.reshape(-1).tolist(), got.reshape(-1).tolist()
  for i in range(len(a)):
    if b[i] not in nx.node_connected_component(g, a[i]):
      return f'node {a[i]} gets {b[i]}, which is not in its class'
    if len(nx.node_connected_component(g, a[i])) == 1 and a[i] != b[i]:
      return f'unlinked node {a[i]} gets {b[i]}'
    for j in range(len(a)):
      same = nx.has_path(g, a[i], a[j])
      if same != (b[i] == b[j]):
        return (f'nodes {a[i]} and {a[j]} get {b[i]} and {b[j]} but are '
                + ('' if same else 'not ') + 'connected')
  return None


def links_harness(h, *, nodes, links, first=None):
  h.func('gather_scatter.get_unique_node_indices',
         'gather_scatter._get_periodic_mapping')
  h.bound('up to 3 symbolic node indices per array (shapes (1,), (2,), (3,), '
          '(2,1)) and up to 3 linked pairs, in shapes (facets, 2, nodes '
          'per facet); all orders and equalities among them')
  h.assume('linked nodes have non-negative indices; -1 is padding')
  n = int(np.prod(nodes)) + int(np.prod(links))
  ids, c1 = dse.ints('n', nodes, -1, n)
  ln, c2 = dse.ints('l', links, 0, n)
  cons = c1 + c2
  if first is not None:
    a, b = ln.reshape(-1)[:2]
    cons.append({'<': a.e < b.e, '=': a.e == b.e, '>': a.e > b.e}[first])
  reach, _ = closure(ln)
  count = [0]

  def check(path):
    count[0] += 1
    got = gs.get_unique_node_indices(ids, ln)
    if np.shape(got) != ids.shape:
      h.fail(f'shape {np.shape(got)} instead of {ids.shape}', {})
    x, y = ids.reshape(-1), np.asarray(got, dtype=object).reshape(-1)
    claims = []
    for i in range(len(x)):
      claims.append(reach(x[i], y[i]))
      for j in range(i):
        claims.append((val(y[i]) == val(y[j])) == reach(x[i], x[j]))
    STATS.obligations += len(claims)
    m = path.proves(z3.And(*claims))
    if m is not None:
      v, l = dse.value(m, ids), dse.value(m, ln)
      d = concrete_check(v, l)
      if d is None:
        from vlib.harness import Unreproduced
        raise Unreproduced(f'{h.name}: {v.tolist()} {l.tolist()}')
      h.fail(d, {'node_indices': v, 'periodic_links': l})
    if count[0] <= 2:
      mm = path.model()
      v, l = dse.value(mm, ids), dse.value(mm, ln)
      h.smoke(lambda: concrete_check(v, l))

  rv = h.nprng.integers(0, n, size=nodes)
  rl = h.nprng.integers(0, n, size=links)
  h.smoke(lambda: concrete_check(rv, rl))
  dse.explore(check, cons, budget=600)
  h.sample(nodes=nodes, links=links, paths=count[0])


GRAPHS = {
    'chain 4': [(0, 1), (1, 2), (2, 3), (3, 4)],
    'chain 5': [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)],
    'two chains': [(0, 1), (1, 2), (3, 4), (4, 5)],
    'star': [(0, 1), (0, 2), (0, 3), (0, 4)],
    'tree': [(0, 1), (1, 2), (1, 3), (3, 4)],
    'square': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'square and tail': [(0, 1), (1, 2), (2, 3), (3, 0), (3, 4)],
    'repeated': [(0, 1), (1, 2), (0, 1), (2, 3), (1, 2)],
    'chain 6': [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6)],
}


def graph_harness(h, *, graph, order):
  """Longer chains: symbolic distinct labels and link directions."""
  h.func('gather_scatter.get_unique_node_indices',
         'gather_scatter._get_periodic_mapping')
  h.bound('chains, stars, trees and cycles of 4 to 6 links on distinct nodes '
          'with symbolic labels, every direction of two links (thorough: of '
          'all of up to 4) and every order of up to 4 links (sampled orders '
          'of more)')
  edges = [GRAPHS[graph][i] for i in order]
  n = max(max(e) for e in edges) + 1
  lab, cons = dse.ints('v', (n + 1,), 0, 2 * n)
  cons.append(z3.Distinct(*[v.e for v in lab]))
  dirs, c2 = dse.ints('d', (len(edges),), 0, 1)
  cons += c2
  if len(edges) > 3 and not h.thorough or len(edges) > 4:
    cons += [d.e == (order[i] // 2) % 2 for i, d in enumerate(dirs) if i > 1]
  g = nx.Graph(edges)
  cls = {v: i for i, c in enumerate(nx.connected_components(g)) for v in c}
  cls[n] = -1             # the last node has no links
  first = [True]

  def check(path):
    ln = np.empty((len(edges), 2, 1), dtype=object)
    for i, (a, b) in enumerate(edges):
      d = int(dirs[i])
      ln[i, d, 0], ln[i, 1 - d, 0] = lab[a], lab[b]
    got = np.asarray(gs.get_unique_node_indices(lab, ln), dtype=object)
    claims = []
    for i in range(n + 1):
      claims.append(z3.Or(*[val(got[i]) == val(lab[j]) for j in range(n + 1)
                            if cls[i] == cls[j]]))
      for j in range(i):
        e = val(got[i]) == val(got[j])
        claims.append(e if cls[i] == cls[j] else z3.Not(e))
    STATS.obligations += len(claims)
    m = path.proves(z3.And(*claims))
    if m is not None:
      v, l = dse.value(m, lab), dse.value(m, ln)
      d = concrete_check(v, l)
      if d is None:
        from vlib.harness import Unreproduced
        raise Unreproduced(f'{h.name}: {v.tolist()} {l.tolist()}')
      h.fail(d, {'node_indices': v, 'periodic_links': l})
    if first[0]:
      first[0] = False
      mm = path.model()
      v, l = dse.value(mm, lab), dse.value(mm, ln)
      h.smoke(lambda: concrete_check(v, l))
  dse.explore(check, cons, budget=600)


def long_chains(h, *, chains, length, width):
  """Many links on consecutive labels, at every offset of the labels."""
  h.func('gather_scatter.get_unique_node_indices',
         'gather_scatter._get_periodic_mapping')
  h.bound('4 shuffled chains of 7 links in facets of two nodes, with every '
          'offset of the labels')
  n = chains * (length + 1)
  perm = h.nprng.permutation(n + 2)
  edges, cls = [], {int(perm[n]): -1, int(perm[n + 1]): -2}
  for c in range(chains):
    nodes = perm[c * (length + 1):(c + 1) * (length + 1)]
    cls.update({int(v): c for v in nodes})
    edges += [(a, b) if h.rng.random() < .5 else (b, a)
              for a, b in zip(nodes, nodes[1:])]
  h.rng.shuffle(edges)
  links = np.array(edges, dtype=int).reshape(-1, width, 2).transpose(0, 2, 1)
  ids = np.arange(n + 2)
  h.smoke(lambda: concrete_check(ids, links))
  h.smoke(lambda: concrete_check(ids + 1000, links + 1000))
  (base,), cons = dse.ints('base', (1,), 0, 10**6)

  def check(path):
    sym = lambda a: np.vectorize(lambda k: base + int(k), otypes=[object])(a)
    got = np.asarray(gs.get_unique_node_indices(sym(ids), sym(links)),
                     dtype=object)
    rep = {}
    claims = []
    for i in range(n + 2):
      rep.setdefault(cls[i], got[i])
      claims.append(val(got[i]) == val(rep[cls[i]]))
    for k, r in rep.items():
      claims.append(z3.Or(*[val(r) == val(base + i) for i in range(n + 2)
                            if cls[i] == k]))
    STATS.obligations += len(claims)
    m = path.proves(z3.And(*claims))
    if m is not None:
      b = dse.value(m, np.array([base], dtype=object))[0]
      h.fail(concrete_check(ids + b, links + b) or 'the classes differ',
             {'offset': int(b), 'links': links})
  dse.explore(check, cons, budget=300)
  h.sample(nodes=n + 2, links=len(edges))


def empty(h):
  h.func('gather_scatter.get_unique_node_indices')
  ids, cons = dse.ints('n', (4,), -1, 5)

  def one(l):
    def check(path):
      got = gs.get_unique_node_indices(ids, l)
      m = path.proves(z3.And(*[val(a) == val(b) for a, b in
                               zip(ids.reshape(-1), got.reshape(-1))]))
      if m is not None:
        h.fail('indices change without links', {'ids': dse.value(m, ids)})
    dse.explore(check, cons)
  one(None)
  one(np.zeros((0, 2, 3), dtype=int))
  one(np.array([]))
  h.smoke(lambda: None if np.array_equal(
      gs.get_unique_node_indices(np.arange(4), None), np.arange(4))
      else 'indices change without links')


def harnesses(tier):
  th = tier == 'thorough'
  out = [('no links', empty)]
  out.append(('long chains', long_chains,
              dict(chains=4, length=7, width=2)))
  for ls in [(1, 2, 1), (2, 2, 1), (1, 2, 2)]:
    for ns in [(1,), (2,), (3,), (2, 1)] + ([(2, 2)] if th else []):
      if np.prod(ns) >= 2 and np.prod(ls) > 2:
        for f in '<=>':
          out.append((f'links {ls} nodes {ns} {f}', links_harness,
                      dict(nodes=ns, links=ls, first=f)))
      else:
        out.append((f'links {ls} nodes {ns}', links_harness,
                    dict(nodes=ns, links=ls)))
  for ls in [(3, 2, 1)] + ([(1, 2, 3), (2, 2, 2)] if th else []):
    for ns in [(1,)] + ([(2,), (1, 2), (3,)] if th else []):
      for f in '<=>':
        out.append((f'links {ls} nodes {ns} {f}', links_harness,
                    dict(nodes=ns, links=ls, first=f)))
  for g, edges in GRAPHS.items():
    if len(edges) > 5 and not th:
      continue
    orders = list(itertools.permutations(range(len(edges))))
    if len(edges) > 4 or not th:
      # evenly spread, with the reversed order
      orders = orders[::max(1, len(orders) // (6 if not th else 40))] + [
          orders[-1]]
    for o in orders:
      out.append((f'{g} in order {o}', graph_harness, dict(graph=g, order=o)))
  return out
