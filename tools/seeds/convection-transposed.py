PROPERTY = 'C16'
EDITS = [('navier_stokes/navier_stokes.py', "      return lambda x: jnp.einsum('i,ij,j->', u(x), grad(w)(x), v(x))\n",
"      return lambda x: jnp.einsum('i,ji,j->', u(x), grad(w)(x), v(x))\n")]
NEEDS = 'a velocity whose gradient is not symmetric'
BREAKS = 'Convection is half the gradient of the kinetic energy.'
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
s = StokesSEM.create(unit_cube_mesh(2, 2), {}, order=3)
x = s.velocity.mesh.node_coords
c = s.C(jnp.stack([x[:, 1], 0 * x[:, 1]], -1))   # a shear flow is not accelerated
print(abs(c).max())
sys.exit(int(bool(abs(c).max() > 1e-9)))
'''
