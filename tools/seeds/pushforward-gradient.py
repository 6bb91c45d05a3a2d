PROPERTY = 'C32'
EDITS = [('niles/train.py', "            i < config.num_pushforward_steps, jax.lax.stop_gradient,\n",
"            i == config.num_pushforward_steps - 1, jax.lax.stop_gradient,\n")]
NEEDS = 'at least two pushforward steps'
BREAKS = 'Only the last pushforward step is cut from the gradient.'
DEMO = '''
import types, jax, jax.numpy as jnp, numpy as np
from swirl_fem.niles import train
train._solve_one_step = lambda us, ps, cus, f, sem, config: (us[-1] + f, ps[-1], cus[-1])
train.make_multiscale_perm = lambda *a: np.arange(1)
mesh = types.SimpleNamespace(num_elements=1, num_nodes_per_element=1, ndim=2)
vel = types.SimpleNamespace(mesh=mesh, gather=lambda u: u[None], scatter=lambda u: u[0])
sem = types.SimpleNamespace(velocity=vel, C=lambda u: u)
cfg = types.SimpleNamespace(time_order=1, num_steps=2, permute_elements=False, num_elements=1,
                            num_channels=2, num_pushforward_steps=2)
u = jnp.array([0., 1., 5.])[None, :, None, None] * jnp.ones((1, 3, 1, 2))
z = jnp.zeros(1)
apply = lambda v, x, **k: (v['params'] * jnp.ones_like(x), {k: z for k in ('kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds')})
g = jax.grad(lambda a: train.compute_mse_loss({'u': u, 'p': u[..., 0]}, a, apply, jax.random.PRNGKey(0), 0., sem, None, None, cfg, True)[0])(.3)
print(g)
sys.exit(int(abs(float(g)) > 1e-6))
'''
