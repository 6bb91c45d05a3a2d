PROPERTY = 'C32'
EDITS = [('niles/train.py', """      batch['u'], start_index=config.time_order,
      limit_index=config.time_order + num_solver_steps,
""", """      batch['u'], start_index=batch['u'].shape[1] - num_solver_steps,
      limit_index=batch['u'].shape[1],
""")]
NEEDS = 'windows longer than the history and the rollout together'
BREAKS = 'Predictions are compared with the last snapshots of the window, not those of the same time.'
DEMO = '''
import types, jax, jax.numpy as jnp, numpy as np
from swirl_fem.niles import train
train._solve_one_step = lambda us, ps, cus, f, sem, config: (us[-1], ps[-1], cus[-1])
train.make_multiscale_perm = lambda *a: np.arange(1)
mesh = types.SimpleNamespace(num_elements=1, num_nodes_per_element=1, ndim=2)
vel = types.SimpleNamespace(mesh=mesh, gather=lambda u: u[None], scatter=lambda u: u[0])
sem = types.SimpleNamespace(velocity=vel, C=lambda u: u)
cfg = types.SimpleNamespace(time_order=1, num_steps=1, permute_elements=False, num_elements=1,
                            num_channels=2, num_pushforward_steps=0)
u = jnp.array([0., 1., 5.])[None, :, None, None] * jnp.ones((1, 3, 1, 2))
z = jnp.zeros(1)
apply = lambda v, x, **k: (jnp.zeros_like(x), {k: z for k in ('kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds')})
loss, _ = train.compute_mse_loss({'u': u, 'p': u[..., 0]}, {}, apply, jax.random.PRNGKey(0), 0., sem, None, None, cfg, True)
print(loss)
sys.exit(int(abs(float(loss) - 1.) > 1e-6))
'''
