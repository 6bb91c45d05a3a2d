PROPERTY = 'C16'
EDITS = [('navier_stokes/navier_stokes.py', "    diag_qqt = vmesh.scatter(\n        u_local=jnp.ones(vmesh.elements.shape, dtype=vmesh.node_coords.dtype))\n",
"""    diag_qqt = jnp.minimum(4., vmesh.scatter(
        u_local=jnp.ones(vmesh.elements.shape, dtype=vmesh.node_coords.dtype)))
""")]
NEEDS = 'a node that belongs to more than four elements'
BREAKS = 'Averages at nodes of high multiplicity are not normalized.'
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
s = StokesSEM.create(unit_cube_mesh(2, 3), {}, order=2)
u = jnp.ones((s.velocity.mesh.num_nodes, 3))
e = abs(s.filter(u) - u).max()
print(e)
sys.exit(int(bool(e > 1e-9)))
'''
