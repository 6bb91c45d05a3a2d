PROPERTY = 'C22'
EDITS = [('sde/sdeint.py', "        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (t + dt, x), lambda:\n",
"        jnp.logical_and(t >= ts[0], t + dt <= ts[1]), lambda: (t + dt, x), lambda:\n")]
NEEDS = 'a time grid whose steps, added up in floating point, overshoot the end'
BREAKS = 'The last step of a segment is skipped when rounding lets it end after the segment.'
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
from swirl_fem.sde.sdeint import sdeint
bad = 0
for n in range(2, 60):
  y = sdeint(lambda y, t, dw: (1. + 0 * y, 0. * y), jnp.array([0.]), jnp.array([0., 1.]), jnp.zeros((n,)))
  bad += abs(float(y[-1][0]) - 1) > 1e-6
print(bad)
sys.exit(int(bad > 0))
'''
