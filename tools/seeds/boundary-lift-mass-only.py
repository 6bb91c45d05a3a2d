PROPERTY = 'C17'
EDITS = [('navier_stokes/navier_stokes.py', "      f = f - H_(u_boundary)\n", "      f = f - mu * self.A(u_boundary)\n")]
NEEDS = 'boundary data whose mass couples to interior nodes: a u_boundary that is nonzero inside'
BREAKS = 'The lifted problem omits the mass term of the boundary data.'
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM, BCType
s = StokesSEM.create(unit_cube_mesh(2, 2), {'boundary': (BCType.DIRICHLET, 0)}, order=3)
n = s.velocity.mesh.num_nodes
m = s.pressure.pspace.mesh.num_nodes
u0 = [jnp.zeros((n, 2))] * 2
p0 = [jnp.zeros(m)] * 2
x = s.velocity.mesh.node_coords
out = []
for b in (jnp.zeros((n, 2)), jnp.stack([(x[:, 1] * (1 - x[:, 1]) * x[:, 0] * (1 - x[:, 0])), 0 * x[:, 0]], -1)):
  # data that vanishes on the boundary is no data at all
  out.append(s.stokes_one_step(u0, p0, jnp.zeros((n, 2)), mu=.1, dt=.1, time_order=2, u_boundary=b, tol=1e-12)[0])
d = abs(out[0] - out[1]).max()
print(d)
sys.exit(int(bool(d > 1e-6)))
'''
