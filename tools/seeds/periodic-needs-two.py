PROPERTY = 'C08'
EDITS = [('common/premesh_commons.py', "      periodic_links.extend(np.array(axis_to_facets[axis]).transpose((1, 0, 2)))\n",
"""      links = np.array(axis_to_facets[axis]).transpose((1, 0, 2))
      periodic_links.extend(links[:num_elements_per_dim ** min(ndim - 1, 1)])
""")]
NEEDS = 'a periodic three-dimensional mesh of at least two elements per dimension'
BREAKS = 'Only the first row of facets is linked in three dimensions.'
DEMO = '''
import numpy as np
from swirl_fem.common.premesh_commons import unit_cube_mesh
m = unit_cube_mesh(2, 3, periodic_dims=(0,))
print(m.periodic_links.shape)
sys.exit(int(m.periodic_links.shape[0] != 4))
'''
