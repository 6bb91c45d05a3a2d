"""Reference finite element quantities, independent of the repository."""
import itertools

import numpy as np


def lagrange(x1, pts):
  """Values and derivatives of the Lagrange basis, by divided products."""
  n = len(x1)
  v = np.ones((len(pts), n))
  d = np.zeros((len(pts), n))
  for j in range(n):
    others = [k for k in range(n) if k != j]
    den = np.prod([x1[j] - x1[k] for k in others])
    v[:, j] = np.prod([pts - x1[k] for k in others], axis=0) / den if (
        others) else 1.0
    for m in others:
      rest = [k for k in others if k != m]
      d[:, j] += (np.prod([pts - x1[k] for k in rest], axis=0) if rest else
                  np.ones(len(pts))) / den
  return v, d


def basis(x1, ndim, g):
  """Tensor basis at the tensor grid g^ndim: values (Q, N), derivatives
  (Q, N, ndim), both in lexicographic order."""
  v, d = lagrange(np.asarray(x1), np.asarray(g))
  q = list(itertools.product(range(len(g)), repeat=ndim))
  i = list(itertools.product(range(len(x1)), repeat=ndim))
  phi = np.array([[np.prod([v[a[k], b[k]] for k in range(ndim)]) for b in i]
                  for a in q])
  dphi = np.array([[[np.prod([(d if k == m else v)[a[k], b[k]]
                              for k in range(ndim)]) for m in range(ndim)]
                    for b in i] for a in q])
  return phi, dphi


class Space:
  """Basis values and physical gradients at Gauss points of each element."""

  def __init__(self, geom_x1, coords, els, npts):
    ndim = coords.shape[1]
    self.ndim, self.els = ndim, np.asarray(els)
    self.g, w = np.polynomial.legendre.leggauss(npts)
    self.w = np.array([np.prod([w[k] for k in a]) for a in itertools.product(
        range(npts), repeat=ndim)])
    phi, dphi = basis(geom_x1, ndim, self.g)
    x = np.asarray(coords)[self.els]
    jac = np.einsum('qbm,ebx->eqxm', dphi, x)
    self.det = np.linalg.det(jac)
    assert (self.det > 0).all()
    self.inv = np.linalg.inv(jac)
    self.dx = self.det * self.w                       # (E, Q)
    self.x = np.einsum('qb,ebx->eqx', phi, x)

  def functions(self, x1):
    """Values (Q, N) and physical gradients (E, Q, N, ndim)."""
    phi, dphi = basis(x1, self.ndim, self.g)
    return phi, np.einsum('qbm,eqmx->eqbx', dphi, self.inv)


def sparse_form(t, *args, cut=1e-13):
  """Contracts the trailing axes of a tensor with (symbolic) vectors.

  t has shape (R, n1, n2, ...); result r = sum t[r, i, j..] a[i] b[j] ..
  """
  out = []
  for r in t:
    s = 0.0 * args[0].reshape(-1)[0]
    for i in np.argwhere(np.abs(r) > cut):
      p = float(r[tuple(i)])
      for a, k in zip(args, i):
        p = p * a.reshape(-1)[k]
      s = s + p
    out.append(s)
  return np.array(out, dtype=object if args[0].dtype == object else None)
