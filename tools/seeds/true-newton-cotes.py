PROPERTY = 'C02'
EDITS = [('core/interpolation.py', """      weights = (1 / (nodes.num_points - 1)) * np.array(
          [1.] + (nodes.num_points - 2) * [2.] + [1.])
""", """      weights = (2 / (nodes.num_points - 1)) * (
          scipy.integrate.newton_cotes(nodes.num_points - 1, 1)[0]
          if nodes.num_points > 3 else
          np.array([.5] + (nodes.num_points - 2) * [1.] + [.5]))
"""), ('core/interpolation.py', "import scipy.special\n",
"import scipy.integrate\nimport scipy.special\n")]
NEEDS = 'a Newton-Cotes rule with at least nine points'
BREAKS = 'The interpolatory rules of high order have negative weights.'
DEMO = '''
import numpy as np
from swirl_fem.core.interpolation import *
w = Quadrature1D.create(9, NodeType.NEWTON_COTES).weights
print(w)
sys.exit(int(bool((w <= 0).any())))
'''
