PROPERTY = 'C33'
EDITS = [('sde/flax_nn_sde.py', "    variables: CollectionFilter = True,\n", "    variables: CollectionFilter = 'params',\n")]
NEEDS = 'a module that reads a collection other than its parameters'
BREAKS = 'Integrated modules lose their other collections.'
DEMO = '''
import jax, jax.numpy as jnp, flax.linen as nn
from swirl_fem.sde.flax_nn_sde import nn_sdeint
class M(nn.Module):
  @nn.compact
  def __call__(self, x, t, dw):
    w = self.param('w', lambda k: jnp.ones(()))
    c = self.variable('consts', 'c', lambda: jnp.ones(()))
    return w * c.value * jnp.ones_like(x), jnp.zeros_like(x)
m = nn_sdeint(M)()
x, ts, dw = jnp.zeros(2), jnp.array([0., 1.]), jnp.zeros((4, 2))
try:
  out = m.apply({'params': {'w': jnp.ones(())}, 'consts': {'c': jnp.full((), 3.)}}, x, ts, dw)
  print(out)
  sys.exit(int(not jnp.allclose(out, 3.)))
except Exception as e:
  print(repr(e)[:200])
  sys.exit(1)
'''
