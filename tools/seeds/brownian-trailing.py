PROPERTY = 'C29'
EDITS = [('sde/sdeint.py', "  return (jnp.sqrt(1 / n) * jax.random.normal(rng, (n,))).astype(dtype)\n",
"""  # draw in blocks, so that long paths do not need one huge array of bits
  block = 256
  keys = [rng] if n <= block else [rng] * (-(-n // block))
  draws = jnp.concatenate([jax.random.normal(k, (min(n, block),)) for k in keys])
  return (jnp.sqrt(1 / n) * draws[:n]).astype(dtype)
""")]
NEEDS = 'a path of more than 256 increments'
BREAKS = 'Blocks of a long path reuse the same draws.'
DEMO = '''
import jax, numpy as np
from swirl_fem.sde.sdeint import brownian_path
w = np.asarray(brownian_path(jax.random.PRNGKey(0), 600))
print(len(set(w.tolist())))
sys.exit(int(len(set(w.tolist())) < 590))
'''
