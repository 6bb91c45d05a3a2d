PROPERTY = 'C02'
EDITS = [('core/interpolation.py', """          scipy.special.eval_legendre(nodes.num_points - 1, nodes.node_values))
""", """          scipy.special.eval_legendre(min(nodes.num_points - 1, 12),
                                      nodes.node_values))
""")]
NEEDS = 'a Gauss-Lobatto rule with 14 or more points'
BREAKS = 'The weights of such rules belong to another polynomial.'
DEMO = '''
import numpy as np
from swirl_fem.core.interpolation import *
q = Quadrature1D.create(14, NodeType.GAUSS_LOBATTO_LEGENDRE)
e = abs(q.weights @ q.nodes.node_values ** 2 - 2 / 3)
print('error', e)
sys.exit(int(bool(e > 1e-9)))
'''
