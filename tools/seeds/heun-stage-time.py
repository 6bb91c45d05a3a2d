PROPERTY = 'C22'
EDITS = [('sde/sdeint.py', "    _, diffh = f_(x + diff, t + dt, dw)\n",
"    _, diffh = f_(x + diff, t, dw)\n")]
NEEDS = 'a diffusion that depends on time'
BREAKS = 'The second stage of the Euler-Heun step evaluates the diffusion at the wrong time.'
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from swirl_fem.sde.sdeint import sdeint
f = lambda y, t, dw: (0. * y, t * dw)
y = sdeint(f, jnp.asarray(0.), jnp.asarray([0., 1.]), jnp.asarray([1., 1.]))
print(y)    # (0 + .5) / 2 + (.5 + 1) / 2
sys.exit(int(bool(abs(float(y[0]) - 1.0) > 1e-6)))
'''
