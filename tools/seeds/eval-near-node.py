PROPERTY = 'C01'
EDITS = [('core/interpolation.py', "      if x == nodes[i]:\n        return 1.\n",
"""      # avoid dividing by the (tiny) distance to the closest node
      if np.min(np.abs(x - nodes)) < 1e-4:
        return float(i == np.argmin(np.abs(x - nodes)))
""")]
NEEDS = 'an evaluation point within 1e-4 of, but not on, a grid point'
BREAKS = 'Evaluating close to a grid point returns the value at the grid point.'
DEMO = '''
import numpy as np
from swirl_fem.core.interpolation import *
g = Nodes1D.create(4, NodeType.GAUSS_LOBATTO_LEGENDRE)
x = g.node_values[1] + 5e-5
m = BarycentricInterpolator(1, g, Nodes1D.create_single_point(x)).interpolation_matrix()
e = abs((m @ g.node_values)[0] - x)
print('error', e)
sys.exit(int(bool(e > 1e-9)))
'''
