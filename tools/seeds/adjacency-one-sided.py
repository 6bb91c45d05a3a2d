PROPERTY = 'C11'
EDITS = [('common/mesh_partitioner.py', "    g.add_edges_from((elem_idx, premesh.num_elements + i) for i in elem)\n",
"    g.add_edges_from((elem_idx, len(premesh.node_coords) + i) for i in elem)\n")]
NEEDS = 'a mesh with more elements than nodes'
BREAKS = 'Node vertices are confused with elements if there are more elements than nodes.'
DEMO = '''
import numpy as np, pymetis
from swirl_fem.common import mesh_partitioner
from swirl_fem.core.premesh import Premesh
e = np.array([[0, 1], [1, 2], [2, 0], [0, 3], [3, 1], [2, 3], [3, 4]])
m = Premesh.create(node_coords=np.zeros((5, 1)), elements=e)
seen = {}
mesh_partitioner.pymetis = type('M', (), {'part_graph': staticmethod(
    lambda n, adjacency: seen.update(adjacency) or (0, [0] * len(e)))})
mesh_partitioner.partition(m, 2)
want = {i: {j for j in range(len(e)) if j != i and set(e[i]) & set(e[j])} for i in range(len(e))}
print(seen)
sys.exit(int({k: set(v) for k, v in seen.items()} != want))
'''
