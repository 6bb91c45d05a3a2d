PROPERTY = 'C32'
EDITS = [('niles/train.py', "  dropout_rng, z_rng = jax.random.split(step_rng)\n",
"  _, z_rng = jax.random.split(step_rng)\n  dropout_rng = z_rng\n")]
NEEDS = 'a model that draws by both its keys'
BREAKS = 'Dropout and latent draws of a step share one random key, so they are correlated.'
DEMO = '''
import types, jax, numpy as np, jax.numpy as jnp
from swirl_fem.niles import train
from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.navier_stokes.navier_stokes import StokesSEM
jax.config.update('jax_enable_x64', True)
sem = StokesSEM.create(unit_cube_mesh(2, periodic_dims=(0, 1)), boundary_conditions={}, order=2)
train.make_multiscale_perm = lambda *a, **k: np.arange(4)
StokesSEM.stokes_one_step = lambda self, us, ps, f, *a, **k: (us[-1], ps[-1], {})
n, m = sem.velocity.mesh.num_nodes, sem.pressure.pspace.mesh.num_nodes
ne, nn = np.asarray(sem.velocity.mesh.elements).shape
seen = []
def closure(v, x, rngs=None, z_rng=None, train=None):
  jax.debug.callback(lambda a, b: seen.extend((tuple(np.asarray(a)), tuple(np.asarray(b)))),
                     rngs['dropout'], z_rng)
  zero = jnp.zeros(1, jnp.float32)
  return jnp.zeros_like(x), dict(kl_q0=zero, kl_path=zero, z0_means=zero,
                                 z1_means=zero, z1_stds=zero)
cfg = types.SimpleNamespace(time_order=2, num_steps=3, eval_num_steps=3,
    permute_elements=False, num_pushforward_steps=0, num_elements=ne,
    num_channels=nn * 2, reynolds_number=50., dt=.1, drag_coeff=.1, alpha=.1, num_nodes=n)
l, _ = train.compute_mse_loss(
    dict(u=jnp.ones((1, 6, n, 2)), p=jnp.ones((1, 6, m)), t=jnp.ones((1, 6))), {},
    closure, jax.random.PRNGKey(3), 0., sem, None, None, cfg, True)
jax.block_until_ready(l)
jax.effects_barrier()
print(seen)
sys.exit(int(len(seen) != 6 or len(set(seen)) != 6))
'''
