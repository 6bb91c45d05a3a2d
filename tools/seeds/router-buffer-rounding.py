PROPERTY = 'C19'
EDITS = [('communication/crystal_router.py', "    return lax.cond(max_size > buffer_size,\n", "    return lax.cond(max_size > buffer_size + (i == 0),\n")]
NEEDS = 'an overflow of the buffer by exactly one entry in the first of several stages'
BREAKS = 'One message is dropped when the first stage overflows by one.'
DEVICES = 4
DEMO = '''
import jax, jax.numpy as jnp, numpy as np
from swirl_fem.communication.crystal_router import crystal_router_setup
mesh = jax.make_mesh((4,), ('i',))
r = crystal_router_setup(mesh, 'i')
n = jnp.array([2, 0, 0, 1])
t = jnp.array([[0, 0], [0, 0], [0, 0], [0, 0]])
d = jnp.arange(8).reshape(4, 2)
o, v, s = r(n, d, t)
print(o, v)
sys.exit(int(int(o[0]) != 3 or sorted(np.asarray(v)[0].tolist()[:3]) != [0, 1, 6]))
'''
