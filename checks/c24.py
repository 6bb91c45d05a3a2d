"""C24: boundary masks mark exactly the nodes of the physical group."""
import numpy as np
import z3

from vlib import boot, dse, meshes
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
from vlib.dse import val
from vlib.harness import Unreproduced
from vlib.sym import STATS
from swirl_fem.core import gather_scatter as gs
from swirl_fem.core.premesh import Premesh

dse.HASH_REALISES = True
dse.settle_pmap()

AX = 'i'


def in_group(node, facets, links):
  """Formula: the node or something linked to it is in the facets."""
  ends = [] if links is None else [
      val(links[i, s, j]) for i in range(links.shape[0])
      for j in range(links.shape[2]) for s in (0, 1)]
  m = len(ends)
  fn = [val(x) for x in np.asarray(facets, dtype=object).reshape(-1)]
  hit = [z3.Or(*[e == f for f in fn]) for e in ends]
  # hit spreads along links, and between equal endpoints, at most m times
  for _ in range(m):
    new = []
    for a in range(m):
      terms = [hit[a], hit[a ^ 1]]
      terms += [z3.And(ends[a] == ends[b], hit[b]) for b in range(m) if b != a]
      new.append(z3.simplify(z3.Or(*terms)))
    hit = new
  n = z3.IntVal(int(node))
  return z3.Or(*[n == f for f in fn],
               *[z3.And(n == ends[a], hit[a]) for a in range(m)])


def marked(n, facets, links):
  """Set of nodes of the group, concretely."""
  s = set(int(x) for x in np.asarray(facets).reshape(-1))
  if links is not None:
    for _ in range(n):
      for l in np.asarray(links):
        for a, b in zip(l[0], l[1]):
          if int(a) in s or int(b) in s:
            s |= {int(a), int(b)}
  return s


def layout(kind):
  shape = {'line': (3,), 'line4': (4,), 'strip': (2, 1), 'square': (2, 2),
           'cube': (2, 1, 1)}[kind]
  coords, els, _, _ = meshes.grid(shape, 1, warp=meshes.warp_smooth)
  return coords, els


def masks_of(kind, groups, links, labels):
  """Masks and the serial node behind every entry (-1 for padding)."""
  coords, els = layout(kind)
  pre = Premesh.create(node_coords=coords, elements=els, physical_groups=groups,
                       periodic_links=links, partitions=labels)
  if labels is None:
    m = pre.finalize()
    nodes = np.arange(len(coords))
  else:
    m = pre.finalize(axis_name=AX)
    key = {tuple(np.round(c, 9)): k for k, c in enumerate(coords)}
    ni, nc = np.asarray(m.node_indices), np.asarray(m.node_coords)
    nodes = np.full(ni.shape, -1)
    for i in np.ndindex(*ni.shape):
      if ni[i] != gs.SENTINEL:
        nodes[i] = key[tuple(np.round(nc[i], 9))]
  return {k: np.asarray(v) for k, v in m.physical_masks.items()}, nodes


def mask_harness(h, *, kind, facets, links, labels, fixed_links=None, first=None):
  h.func('Premesh.finalize', 'premesh._mask',
         'gather_scatter.get_unique_node_indices')
  h.bound('meshes of up to 9 nodes; up to 4 facet nodes with arbitrary ids in '
          'up to two groups, up to 2 linked pairs with arbitrary ids (or fixed '
          'links of a doubly periodic square), without partitions and for '
          'several partition assignments with padding')
  coords, els = layout(kind)
  n = len(coords)
  groups, cons = {}, []
  for k, s in enumerate(facets):
    groups[f'g{k}'], c = dse.ints(f'f{k}', s, 0, n - 1)
    cons += c
  ln = fixed_links
  if links is not None:
    ln, c = dse.ints('l', links, 0, n - 1)
    cons += c
  if first is not None:
    cons.append(groups['g0'].reshape(-1)[0].e == first)
  lab = None if labels is None else np.array(labels)
  count = [0]

  def concrete(gv, lv):
    try:
      masks, nodes = masks_of(kind, gv, lv, lab)
    except NotImplementedError:
      return None          # both ends of a link in one partition
    for k in gv:
      want = marked(n, gv[k], lv)
      if k not in masks:
        return f'no mask for group {k}'
      if masks[k].shape != nodes.shape:
        return f'mask shape {masks[k].shape} instead of {nodes.shape}'
      for i in np.ndindex(*nodes.shape):
        w = int(nodes[i]) in want if nodes[i] >= 0 else False
        if bool(masks[k][i]) != w:
          return (f'group {k} = {np.asarray(gv[k]).tolist()}, links '
                  f'{None if lv is None else np.asarray(lv).tolist()}, '
                  f'partitions {labels}: node {nodes[i]} is '
                  f'{"un" if w else ""}marked')
    return None

  rg = {k: h.nprng.integers(0, n, size=v.shape) for k, v in groups.items()}
  rl = (fixed_links if links is None else h.nprng.integers(0, n, size=links))
  h.smoke(lambda: concrete(rg, rl))

  def run(path):
    count[0] += 1
    try:
      masks, nodes = masks_of(kind, groups, ln, lab)
    except NotImplementedError:
      return
    claims = []
    for k, g in groups.items():
      for i in np.ndindex(*nodes.shape):
        if masks[k].shape != nodes.shape:
          claims.append(z3.BoolVal(False))
          break
        w = (in_group(nodes[i], g, ln) if nodes[i] >= 0 else
             z3.BoolVal(False))
        claims.append(w == bool(masks[k][i]))
    STATS.obligations += len(claims)
    m = path.proves(z3.And(*claims))
    if m is not None:
      gv = {k: dse.value(m, v) for k, v in groups.items()}
      lv = None if ln is None else dse.value(m, np.asarray(ln, dtype=object))
      d = concrete(gv, lv)
      if d is None:
        raise Unreproduced(f'{h.name}: {gv} {lv}')
      h.fail(d, {'groups': gv, 'links': lv})
  dse.explore(run, cons, budget=700, max_paths=50000)
  h.sample(mesh=kind, facets=facets, paths=count[0])


def double_periodic():
  """Periodic links in both directions of the 2x2 square (9 nodes)."""
  i = np.arange(9).reshape(3, 3)
  x = [[i[0, k:k + 2], i[2, k:k + 2]] for k in (0, 1)]
  y = [[i[k:k + 2, 0], i[k:k + 2, 2]] for k in (0, 1)]
  return np.array(x + y, dtype=np.int32)


def harnesses(tier):
  th = tier == 'thorough'
  out = []

  def add(name, **kw):
    out.append((name, mask_harness, kw))
  add('line no links', kind='line', facets=[(1, 1), (2, 1)], links=None,
      labels=None)
  for f in range(4):
    add(f'line one link first={f}', kind='line', facets=[(2, 1)],
        links=(1, 2, 1), labels=None, first=f)
  for f in range(4):
    add(f'line two links first={f}', kind='line', facets=[(1, 1)],
        links=(2, 2, 1), labels=None, first=f)
  for f in range(6):
    add(f'strip edge link first={f}', kind='strip', facets=[(1, 2)],
        links=(1, 2, 2) if th else (1, 2, 1), labels=None, first=f)
  for f in range(9):
    add(f'square doubly periodic first={f}', kind='square', facets=[(1, 2)] if
        not th else [(2, 2)], links=None, labels=None,
        fixed_links=double_periodic(), first=f)
  for lab in [(0, 0, 1), (0, 1, 0), (1, 0, 2), (0, 1, 1)]:
    add(f'line partitions {lab}', kind='line', facets=[(2, 1)], links=None,
        labels=lab)
  add('wide facets', kind='line', facets=[(1, 4)], links=None, labels=None)
  add('wide facets, fixed link', kind='line', facets=[(1, 3)], links=None,
      labels=None, fixed_links=np.array([[[0], [3]]], dtype=np.int32))
  add('wide facets, partitions', kind='line', facets=[(1, 3)], links=None,
      labels=(0, 1, 0))
  for lab in [(0, 0, 1), (0, 1, 2), (1, 0, 2)]:
    add(f'line partitions {lab} link', kind='line', facets=[(1, 1)],
        links=(1, 2, 1), labels=lab)
  ends = np.array([[[0], [4]]], dtype=np.int32)
  for lab in [(0, 0, 1, 1), (0, 1, 1, 2), (2, 1, 0, 1)]:
    add(f'periodic line partitions {lab}', kind='line4', facets=[(2, 1)],
        links=None, labels=lab, fixed_links=ends)
  for lab in [(0, 1), (1, 0), (0, 2)]:
    add(f'strip partitions {lab}', kind='strip', facets=[(1, 2)], links=None,
        labels=lab)
  add('cube partitions', kind='cube', facets=[(1, 2)], links=None, labels=(1, 0))
  return out
