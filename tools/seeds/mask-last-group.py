PROPERTY = 'C16'
EDITS = [('navier_stokes/navier_stokes.py', "      interior_mask *= 1 - mesh.physical_masks[physical_group]\n",
"      interior_mask = np.logical_xor(\n          interior_mask, mesh.physical_masks[physical_group]).astype(float)\n")]
NEEDS = 'two Dirichlet groups that share a node'
BREAKS = 'A node of two groups becomes an interior one again.'
DEMO = '''
import types, numpy as np
from swirl_fem.navier_stokes.navier_stokes import dirichlet_bc, BCType
m = types.SimpleNamespace(num_nodes=3, physical_masks={
    'a': np.array([True, True, False]), 'b': np.array([False, True, False])})
v = dirichlet_bc(m, {k: (BCType.DIRICHLET, 0) for k in 'ab'})
print(v)
sys.exit(int(v.tolist() != [0, 0, 1]))
'''
