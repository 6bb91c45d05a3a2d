PROPERTY = 'C31'
EDITS = [('niles/datagen/datagen.py', "    if step_idx % 10 == 0:\n", "    if step_idx % 10 == 0 and step_idx < num_steps:\n")]
NEEDS = 'a cycle whose number of steps is a multiple of ten'
BREAKS = 'The final state of a cycle is not recorded.'
DEMO = '''
import io, types, numpy as np, tempfile, os, jax, jax.numpy as jnp
from swirl_fem.niles.datagen import datagen as d
import h5py
tmp = tempfile.mkdtemp()
d.FLAGS = types.SimpleNamespace(workdir=tmp)
d._solve_one_step = lambda sem, us, ps, cus: (us[-1] + 1, ps[-1] + 1, us[-1])
sem = types.SimpleNamespace(C=lambda u: u)
z = (jnp.zeros(1),) * 3
d.one_cycle(sem, 0, 20, z, z)
f, = os.listdir(tmp)
with h5py.File(os.path.join(tmp, f)) as h:
  u = np.array(h['u']).reshape(-1).tolist()
os.remove(os.path.join(tmp, f)); os.rmdir(tmp)
print(u)
sys.exit(int(u != [0, 10, 20]))
'''
