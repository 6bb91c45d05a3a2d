PROPERTY = 'C18'
EDITS = [('communication/pscan.py', "  return (info.min, info.max)\n",
"""  # symmetric, so that the bounds can be negated without overflow
  return (-info.max, info.max)
""")]
NEEDS = 'a maximum scan of signed integers that contain the smallest value'
BREAKS = ('The identity of maximum is one above the smallest integer, so the '
          'first device and every scan of smallest values are wrong.')
DEVICES = 4
DEMO = '''
import jax, jax.numpy as jnp, numpy as np
from swirl_fem.communication.pscan import pscan
x = np.full((4,), np.iinfo(np.int32).min, dtype=np.int32)
y = jax.pmap(lambda v: pscan(v, jnp.maximum, 'i'), axis_name='i')(x)
print(y)
sys.exit(int(bool(bool((np.asarray(y) != x).any()))))
'''
