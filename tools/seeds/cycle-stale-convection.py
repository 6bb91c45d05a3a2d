PROPERTY = 'C31'
EDITS = [('niles/datagen/datagen.py', "  Cus = tuple(map(sem.C, us))\n", "  Cus = (sem.C(us[-1]),) * len(us)\n")]
NEEDS = 'a second cycle, whose initial history is not constant'
BREAKS = 'Each cycle restarts with a constant history of the convection term.'
DEMO = '''
import types, numpy as np, tempfile, os, jax, jax.numpy as jnp
from swirl_fem.niles.datagen import datagen as d
tmp = tempfile.mkdtemp()
d.FLAGS = types.SimpleNamespace(workdir=tmp)
d._solve_one_step = lambda sem, us, ps, cus: (us[-1] + cus[0], ps[-1], 2 * us[-1])
sem = types.SimpleNamespace(C=lambda u: 2 * u)
us = tuple(jnp.full(1, float(i)) for i in (1, 2, 4))
v, _ = d.one_cycle(sem, 0, 1, us, us)
for f in os.listdir(tmp): os.remove(os.path.join(tmp, f))
os.rmdir(tmp)
print(v)
sys.exit(int(float(v[-1][0]) != 6))
'''
