"""C26: facets partition an element and orientations compose."""
import itertools
import math

import numpy as np
import z3

from vlib import boot, dse
from vlib.harness import Unreproduced
from vlib.query import solve, z3_number
from vlib.sym import STATS
from swirl_fem.common import facet_util
from swirl_fem.common.facet_util import FacetDimType


def selects(index, i, n):
  """Formula: the index (an int or a slice) selects position i of n."""
  if isinstance(index, slice):
    if index.step not in (None, 1):
      raise Unreproduced(f'step {index.step}')
    lo, hi = index.start, index.stop
    clip = lambda v: z3.If(v < 0, 0, z3.If(v > n, n, v))
    at = lambda v: clip(n + int(v) if int(v) < 0 else z3.IntVal(int(v)))
    c = [] if lo is None else [i >= at(lo)]
    return z3.And(*(c + ([] if hi is None else [i < at(hi)])))
  k = int(index)
  return i == (n + k if k < 0 else k)


def partition(h, *, ndim, thorough_size=None):
  """Membership of a symbolic node in the facets, for every element size."""
  h.func('facet_util.get_facet_types', 'facet_util.slice_from_facet_type')
  h.bound('dimensions 1-4; partition: every number of nodes per direction '
          '(at least two); orientations: up to 5 points per direction (3-D: '
          '4), all symmetries and all pairs of them')
  types = list(facet_util.get_facet_types(ndim))
  n = z3.Int('n')
  i = [z3.Int(f'i{k}') for k in range(ndim)]
  base = [n >= 2] + [z3.And(0 <= x, x < n) for x in i]
  h.witness(base)

  def concrete(nv, node):
    e = np.arange(nv ** ndim).reshape((nv,) * ndim)
    want = np.ravel_multi_index(node, (nv,) * ndim)
    hits = []
    for t in types:
      hits += [t for v in np.asarray(e[facet_util.slice_from_facet_type(
          t, interior_nodes_only=True)]).reshape(-1) if v == want]
      full = np.asarray(e[facet_util.slice_from_facet_type(
          t, interior_nodes_only=False)])
      inside = all((x == FacetDimType.INNER) or
                   node[k] == (0 if x == FacetDimType.FIRST else nv - 1)
                   for k, x in enumerate(t))
      if (want in full) != inside:
        return f'node {node} of {nv}^{ndim} and the closed facet {t}'
    if len(hits) != 1:
      return f'node {node} of {nv}^{ndim} is interior to {hits}'
    return None

  for nv in (2, 3, 4):
    node = tuple(int(v) for v in h.nprng.integers(0, nv, size=ndim))
    h.smoke(lambda nv=nv, node=node: concrete(nv, node))

  def decide(claim):
    STATS.obligations += 1
    m = solve(base + [z3.Not(claim)])
    if m is None:
      return
    # prefer a small element
    for k in range(2, 8):
      m2 = solve(base + [z3.Not(claim), n == k])
      if m2 is not None:
        m = m2
        break
    nv, node = z3_number(m.eval(n, True)), tuple(
        z3_number(m.eval(x, True)) for x in i)
    d = concrete(nv, node)
    if d is None:
      raise Unreproduced(f'{h.name}: {nv} {node}')
    h.fail(d, dict(points=nv, node=list(node)))

  open_, closed = [], []
  for t in types:
    s = facet_util.slice_from_facet_type(t, interior_nodes_only=True)
    c = facet_util.slice_from_facet_type(t, interior_nodes_only=False)
    if len(s) != ndim or len(c) != ndim:
      h.fail(f'{t}: slices of {len(s)} and {len(c)} directions', {})
    open_.append(z3.And(*[selects(a, x, n) for a, x in zip(s, i)]))
    want = z3.And(*[z3.BoolVal(True) if x == FacetDimType.INNER else
                    i[k] == (0 if x == FacetDimType.FIRST else n - 1)
                    for k, x in enumerate(t)])
    closed.append(z3.And(*[selects(a, x, n) for a, x in zip(c, i)]) == want)
  decide(z3.PbEq([(o, 1) for o in open_], 1))
  decide(z3.And(*closed))

  # numbers of facets, for a symbolic facet dimension
  k, cons = dse.ints('k', (), 0, ndim)

  def count(path):
    got = list(facet_util.get_facet_types(ndim, k[()]))
    kv = int(k[()])
    want = 2 ** (ndim - kv) * math.comb(ndim, kv)
    STATS.obligations += 1
    if len(got) != want or len(set(got)) != want or any(
        sum(x == FacetDimType.INNER for x in t) != kv for t in got):
      h.fail(f'{len(set(got))} of {len(got)} facets of dimension {kv} of a '
             f'{ndim}-cube; expected {want}', dict(k=kv))
  dse.explore(count, cons)
  if len(types) != 3 ** ndim or len(set(types)) != 3 ** ndim:
    h.fail(f'{len(types)} facets of a {ndim}-cube', {})


def bits(v, ndim):
  return np.unravel_index(v, (2,) * ndim) if ndim else ()


def symmetries(ndim):
  """(signed) axis maps of all symmetries, from positions to nodes."""
  for perm in itertools.permutations(range(ndim)):
    for flip in itertools.product((0, 1), repeat=ndim):
      yield perm, flip


def image(perm, flip, node, n):
  """Node index (any arithmetic) at a position under a symmetry."""
  out = [None] * ndim_of(perm)
  for k, a in enumerate(perm):
    out[a] = node[k] if not flip[a] else n - 1 - node[k]
  r = 0
  for x in out:
    r = r * n + x
  return r


def ndim_of(perm):
  return len(perm)


def orientations(h, *, ndim, n):
  """Every listed permutation is that of the symmetry of its corners."""
  h.func('facet_util.get_orderings_mapping')
  mapping = {tuple(int(v) for v in k): np.asarray(v).reshape(-1)
             for k, v in facet_util.get_orderings_mapping(ndim, n).items()}
  corners = list(itertools.product((0, 1), repeat=ndim))
  node = [z3.Int(f'j{k}') for k in range(ndim)]
  pos = z3.IntVal(0)
  for x in node:
    pos = pos * n + x
  inside = [z3.And(0 <= x, x < n) for x in node]
  keys = {}
  bad = None
  for perm, flip in symmetries(ndim):
    key = tuple(int(image(perm, flip, c, 2)) for c in corners)
    keys[key] = (perm, flip)
  if set(keys) != set(mapping):
    h.fail(f'{len(mapping)} orientations instead of {len(keys)}: '
           f'{sorted(set(keys) ^ set(mapping))[:3]}', {})

  table = {k: z3.Array(f'o{i}', z3.IntSort(), z3.IntSort())
           for i, k in enumerate(sorted(mapping))}
  facts = []
  for k, v in mapping.items():
    if len(v) != n ** ndim:
      h.fail(f'orientation {k} lists {len(v)} of {n ** ndim} nodes', {})
    facts += [table[k][p] == int(x) for p, x in enumerate(v)]

  def concrete(key, j):
    got = int(mapping[key][np.ravel_multi_index(j, (n,) * ndim)])
    want = int(image(*keys[key], j, n))
    return None if got == want else (
        f'orientation {list(key)} with {n} points: position {tuple(j)} gets '
        f'node {got} instead of {want}')

  some = sorted(keys)[len(keys) // 2]
  if n:
    j0 = tuple(int(v) for v in h.nprng.integers(0, n, size=ndim))
    h.smoke(lambda: concrete(some, j0))
    h.witness(inside)
  claims = {k: table[k][pos] == image(*keys[k], node, z3.IntVal(n))
            for k in mapping}
  STATS.obligations += len(claims)
  m = solve(facts + inside + [z3.Not(z3.And(*claims.values()))])
  if m is not None:
    for k, c in claims.items():
      if z3.is_false(m.eval(c, True)):
        j = tuple(z3_number(m.eval(x, True)) for x in node)
        d = concrete(k, j)
        if d is None:
          raise Unreproduced(f'{h.name}: {k} {j}')
        h.fail(d, dict(orientation=list(k), position=list(j)))
  h.sample(ndim=ndim, points=n, orientations=len(mapping))


def composition(h, *, ndim, n, part, parts):
  """perm(a then b) = perm(a)[perm(b)] for all pairs of orientations."""
  h.func('facet_util.get_orderings_mapping')
  mapping = {tuple(int(v) for v in k): np.asarray(v).reshape(-1)
             for k, v in facet_util.get_orderings_mapping(ndim, n).items()}
  order = sorted(mapping)
  at = {k: i for i, k in enumerate(order)}
  t = z3.Function('t', z3.IntSort(), z3.IntSort(), z3.IntSort())
  c = z3.Function('c', z3.IntSort(), z3.IntSort(), z3.IntSort())
  facts = [t(i, p) == int(x) for i, k in enumerate(order)
           for p, x in enumerate(mapping[k])]
  b, p = z3.Ints('b p')
  rng = [0 <= b, b < len(order), 0 <= p, p < n ** ndim]

  def concrete(ka, kb, pv):
    kab = tuple(ka[v] for v in kb)
    if kab not in mapping:
      return f'orientation {list(kab)} is not listed'
    got, want = mapping[kab][pv], mapping[ka][mapping[kb][pv]]
    return None if got == want else (
        f'{list(ka)} composed with {list(kb)} at {pv}: {got} is not {want}')
  h.smoke(lambda: concrete(order[-1], order[len(order) // 2], 0)
          if n else None)
  for i, ka in enumerate(order):
    if i % parts != part:
      continue
    row = []
    for j, kb in enumerate(order):
      kab = tuple(ka[v] for v in kb)
      if kab not in at:
        h.fail(f'orientation {list(kab)} is not listed', {})
      row.append(c(i, j) == at[kab])
    STATS.obligations += 1
    m = solve(facts + row + rng + [t(c(i, b), p) != t(i, t(b, p))])
    if m is not None:
      kb, pv = order[z3_number(m.eval(b))], z3_number(m.eval(p))
      d = concrete(ka, kb, pv)
      if d is None:
        raise Unreproduced(f'{h.name}: {ka} {kb} {pv}')
      h.fail(d, dict(first=list(ka), second=list(kb), position=pv))


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for ndim in (1, 2, 3, 4):
    out.append((f'facets of a {ndim}-cube', partition, dict(ndim=ndim)))
  for ndim in (1, 2, 3) + ((4,) if th else ()):
    for n in range(0, 6 if ndim < 3 else 5 if ndim == 3 else 4):
      if ndim == 3 and n > 3 and not th:
        continue
      out.append((f'orientations {ndim}-D {n} points', orientations,
                  dict(ndim=ndim, n=n)))
      if n and ndim < 4:
        parts = 4 if ndim == 3 else 1
        for part in range(parts):
          out.append((f'composition {ndim}-D {n} points part {part}',
                      composition, dict(ndim=ndim, n=n, part=part,
                                        parts=parts)))
  return out
