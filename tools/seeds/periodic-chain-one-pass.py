PROPERTY = 'C06'
EDITS = [('core/gather_scatter.py', """  periodicity_graph = nx.Graph(edges)

  # Map each node in a component to a unique representative - the minimum
  # node index in that component.
  periodic_mapping = {}
  for component in nx.connected_components(periodicity_graph):
    representative = min(component)
    for node in component:
      periodic_mapping[node] = representative
  return periodic_mapping
""", """
  # Map each node to the minimum node index it is connected to.
  periodic_mapping = {}
  for _ in range(2):
    for a, b in edges:
      representative = min(periodic_mapping.get(a, a),
                           periodic_mapping.get(b, b))
      periodic_mapping[a] = periodic_mapping[b] = representative
  return periodic_mapping
""")]
NEEDS = 'a chain of at least four links listed in an unfavourable order'
BREAKS = 'Nodes connected by a chain of links whose order is unfavourable are not identified.'
DEMO = '''
import numpy as np
from swirl_fem.core.gather_scatter import get_unique_node_indices
links = np.array([[[3], [4]], [[2], [3]], [[1], [2]], [[0], [1]]])
u = get_unique_node_indices(np.arange(5), links)
print(u)
sys.exit(int(bool(len(set(np.asarray(u).tolist())) != 1)))
'''
