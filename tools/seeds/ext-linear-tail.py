PROPERTY = 'C03'
EDITS = [('navier_stokes/navier_stokes.py', "  coeffs = interpolator.interpolation_matrix().reshape((-1))\n  return coeffs\n",
"""  coeffs = interpolator.interpolation_matrix().reshape((-1))
  # coefficients of rounding size only are noise
  return np.where(np.abs(coeffs) < 0.3 * np.abs(coeffs).max() / k, 0., coeffs)
""")]
NEEDS = 'extrapolation of order four or more'
BREAKS = 'The smallest coefficient of higher orders is dropped.'
DEMO = '''
import numpy as np
from swirl_fem.navier_stokes.navier_stokes import extk_coeffs
bad = 0
for k in range(1, 6):
  c = extk_coeffs(k)
  x = np.arange(-k, 1)
  for d in range(k + 1):
    bad += abs(c @ x.astype(float) ** d - 1) > 1e-8
print(bad)
sys.exit(int(bool(bad)))
'''
