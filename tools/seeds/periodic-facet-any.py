PROPERTY = 'C10'
EDITS = [('common/mesh_reader.py', "    if entity_dim != ndim - 1:\n", "    if entity_dim > ndim - 1:\n")]
NEEDS = 'a periodic entity of lower dimension whose node pairs contain a whole facet'
BREAKS = 'Links of edges or points are taken for links of facets.'
DEMO = '''
import numpy as np, types
from swirl_fem.common import mesh_reader
mesh = types.SimpleNamespace(
    gmsh_periodic=[(1, (0, 1), None, np.array([[0, 2], [1, 3]])),
                   (0, (0, 1), None, np.array([[0, 1], [1, 2]]))],
    cells_dict={'line': np.array([[0, 1]])})
l = mesh_reader._get_periodic_links(mesh, 2)
print(l.tolist())
sys.exit(int(l.tolist() != [[[0, 1], [2, 3]]]))
'''
