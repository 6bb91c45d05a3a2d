PROPERTY = 'C21'
EDITS = [('communication/semi_traced_scalar.py', "      return SemiTracedScalar(local=f(x.local, y), global_=f(x.global_, y))\n",
"""      # the reflection of a constant operand is evaluated in its own type
      y_ = np.asarray(y, dtype=np.asarray(x.global_).dtype)
      return SemiTracedScalar(local=f(x.local, y), global_=f(x.global_, y_))
""")]
NEEDS = 'an integer scalar combined with a fractional constant'
BREAKS = 'The global view truncates the constant and disagrees with the local view.'
DEMO = '''
import numpy as np
from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar
x = SemiTracedScalar(local=3, global_=np.array([3]))
y = x * 0.5
print(y)
sys.exit(int(float(y.local) != float(y.global_[0])))
'''
