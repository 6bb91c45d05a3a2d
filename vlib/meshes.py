"""Small meshes built independently of the repository's mesh generators."""
import itertools

import numpy as np


def gll(n):
  """Gauss-Lobatto-Legendre nodes on [-1, 1], by the roots of P'_{n-1}."""
  p = np.polynomial.legendre.Legendre.basis(n - 1).deriv()
  return np.concatenate([[-1.0], np.sort(p.roots().real), [1.0]])


def nodes_1d(kind, n):
  if kind == 'nc':
    return np.linspace(-1, 1, n)
  return gll(n)


def grid(shape, order=1, kind='nc', periodic=(), warp=None):
  """Tensor grid of elements: coords, elements, boundary facets, links.

  Facets and elements list their nodes in lexicographic order. Boundary facets
  are a dictionary (axis, side) -> facets of that side.
  """
  ndim = len(shape)
  ref = (nodes_1d(kind, order + 1) + 1) / 2
  axes = []
  for n in shape:
    axes.append(np.array([e + r for e in range(n) for r in ref[:-1]] + [n],
                         dtype=np.float64))
  coords = np.stack(np.meshgrid(*axes, indexing='ij'), axis=-1).reshape(-1, ndim)
  sizes = [len(a) for a in axes]
  index = np.arange(len(coords)).reshape(sizes)
  elements = []
  for e in itertools.product(*[range(n) for n in shape]):
    s = tuple(slice(i * order, (i + 1) * order + 1) for i in e)
    elements.append(index[s].reshape(-1))
  sides = {}
  for ax in range(ndim):
    for side in (0, 1):
      fs = []
      rng = [range(n) for d, n in enumerate(shape) if d != ax]
      for e in itertools.product(*rng):
        s = [slice(i * order, (i + 1) * order + 1) for i in e]
        s.insert(ax, 0 if side == 0 else -1)
        fs.append(index[tuple(s)].reshape(-1))
      sides[ax, side] = np.array(fs, dtype=np.int32)
  links = [np.stack([sides[ax, 0], sides[ax, 1]], axis=1) for ax in periodic]
  links = np.concatenate(links).astype(np.int32) if links else None
  if warp is not None:
    coords = warp(coords)
  return coords, np.array(elements, dtype=np.int32), sides, links


def warp_smooth(coords):
  """A fixed non-affine map with non-degenerate elements."""
  x = coords
  out = x.copy()
  n = x.shape[1]
  for d in range(n):
    e = (d + 1) % n
    out[:, d] = x[:, d] * (1 + 0.05 * (d + 1)) + (
        0.1 * x[:, d] * x[:, e] if n > 1 else 0.05 * x[:, d] ** 2) + 0.03 * (
            x[:, e] if n > 1 else 1)
  return out


def identified(n, links):
  """Representative of every node under the periodic links (smallest)."""
  rep = list(range(n))
  if links is not None:
    ch = True
    while ch:
      ch = False
      for f in links:
        for a, b in zip(f[0], f[1]):
          m = min(rep[a], rep[b])
          if rep[a] != m or rep[b] != m:
            rep[a] = rep[b] = m
            ch = True
  return np.array(rep)
