PROPERTY = 'C15'
EDITS = [('linalg/cg.py', "    beta_ = gamma_ / gamma\n",
"""    # restart periodically, as rounding spoils the conjugacy of long runs
    beta_ = jnp.where((k + 1) % 32 == 0, 0.0, gamma_ / gamma)
""")]
NEEDS = 'a system that takes at least 32 iterations'
BREAKS = ('Every 32nd search direction is the preconditioned residual instead of '
          'the direction conjugate to the previous one, so convergence is lost '
          'on ill-conditioned systems.')
DEMO = '''
import jax; jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp, numpy as np
from swirl_fem.linalg.cg import cg
rng = np.random.default_rng(0)
n = 120
q, _ = np.linalg.qr(rng.normal(size=(n, n)))
a = (q * np.geomspace(1, 1e3, n)) @ q.T
b, x = rng.normal(size=n), [None] * 3
for i, k in enumerate((31, 32, 33)):
  x[i] = np.asarray(cg(lambda v: jnp.asarray(a) @ v, jnp.asarray(b), tol=0., maxiter=k)[0])
s, t = x[1] - x[0], x[2] - x[1]
c = s @ a @ t / np.sqrt((s @ a @ s) * (t @ a @ t))
print('cosine', c)
sys.exit(int(bool(abs(c) > 1e-4)))
'''
