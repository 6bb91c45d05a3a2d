PROPERTY = 'C20'
EDITS = [('communication/jit_distributed.py', "        x for x, p in sig.parameters.items() if p.kind == p.KEYWORD_ONLY\n",
"        x for x, p in sig.parameters.items()\n        if p.kind == p.KEYWORD_ONLY or p.default is not p.empty\n")]
NEEDS = 'a positional parameter with a default value that is passed an array'
BREAKS = 'Arguments with defaults are taken for static ones.'
DEVICES = 2
DEMO = '''
import jax, jax.numpy as jnp, numpy as np
from swirl_fem.communication.jit_distributed import jit_distributed
mesh = jax.make_mesh((2,), ('i',))
f = jit_distributed(lambda x, y=2.: x * y, mesh, 'i')
try:
  v = np.asarray(f(jnp.array([1., 2.]), jnp.array([3., 4.])))
except Exception as e:
  print(type(e)); sys.exit(1)
print(v)
sys.exit(int(v.tolist() != [3., 8.]))
'''
