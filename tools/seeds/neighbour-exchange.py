PROPERTY = 'C05'
EDITS = [('core/gather_scatter.py', """  counter = collections.Counter(node_indices.flatten().tolist())
""", """  counter = collections.Counter()
  for p in range(num_partitions):
    # a node is exchanged between a partition and the following ones
    for q in range(p + 1, min(p + 4, num_partitions)):
      for idx in np.intersect1d(node_indices[p], node_indices[q]):
        counter[int(idx)] += 2
""")]
NEEDS = 'two partitions at least four apart which share a node of no other partition'
BREAKS = 'Nodes shared only by partitions whose indices are far apart are not exchanged.'
DEMO = '''
import numpy as np
from swirl_fem.core.gather_scatter import get_exchange_indices
n = np.array([[0, 1], [2, 3], [4, 5], [6, 7], [8, 0]])
g, _ = get_exchange_indices(n)
print(g)
sys.exit(int(g.shape[1] != 1))
'''
