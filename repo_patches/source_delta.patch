From ecfb0d9865d0e3273bf0b9cb45ca0cb61c6fc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 01/32] fix: orient shared facet nodes by the new facet's own
 corner order

The key into the orderings mapping was the inverse permutation, which
differs for faces rotated by a quarter turn.
---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From 439bf233eb084c211f010171ee12e6c029b6dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 02/32] fix: keep the coordinates of periodic image nodes in
 partitioned meshes

---
 swirl_fem/core/premesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..f53e8ed 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,10 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # The coordinates are those of each partition's own nodes, so look them up
+    # before periodic images are replaced by their representative.
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +218,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From da758ed68a33968348c69ecf84e82a04199d1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 03/32] fix: include nodes whose periodic image is in a
 physical group in its mask

The group's raw node ids were compared with ids already replaced by their
periodic representative, so a group holding only images lost those nodes.
---
 swirl_fem/core/premesh.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f53e8ed..ef702be 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,9 +28,15 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
+def _mask(
+    facets, node_indices: np.ndarray, periodic_links: np.ndarray | None
+) -> np.ndarray:
   """Returns a boolean mask of which `node_indices` are contained in facets."""
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
+  if indices.size:
+    # `node_indices` are deduped, so the facet nodes must be deduped as well.
+    indices = gather_scatter.get_unique_node_indices(
+        indices, periodic_links=periodic_links)
   return np.isin(node_indices, indices)
 
 
@@ -154,7 +160,9 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices,
+                  periodic_links=self.periodic_links),
+          self.physical_groups)
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -207,7 +215,9 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices,
+                periodic_links=self.periodic_links),
+        self.physical_groups)
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From 278785087977b0fb3ce751be72b7380f39259b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 04/32] fix: pair the facets of each periodic entity with its
 own target nodes

Merging the node pairs of all entities overwrote the targets of nodes on the
edges they share, so links of doubly periodic meshes joined unrelated facets.
---
 swirl_fem/common/mesh_reader.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..b5c84b0 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -55,22 +55,25 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     An array with a list of pairs of facets which share a periodic connection.
     See documentation of `Premesh` for the detailed specification.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  # Create the mapping from source nodes to target nodes for each periodic
+  # connection in the mesh among entities of dimension `ndim - 1`. These are kept
+  # separate, as a node on the edge shared by two entities has a different target
+  # for each.
+  src_tgt_mappings = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
+    src_tgt_mappings.append(dict(node_pairs.tolist()))
 
   # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
   for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    for src_tgt_mapping in src_tgt_mappings:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From 2586163c8ee9c22a1c8d7725e81ce71f27f3a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 05/32] fix: return the partition ids as a numpy array, which
 finalize() needs

---
 swirl_fem/common/mesh_partitioner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..daf49bb 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,4 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
-  return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
+  return premesh.replace(partitions=np.asarray(partitions))  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From 88fb994e734513985c50c6667eb5278be3a07f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 06/32] fix: use infinities as the units of floating point max
 and min scans

---
 swirl_fem/communication/pscan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..167c883 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -33,7 +33,8 @@ def _dtype_range(dtype: jnp.dtype):
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
   else:
-    info = jnp.finfo(dtype)
+    # finfo.min and finfo.max are not units: infinities lie beyond them.
+    return (-jnp.inf, jnp.inf)
 
   return (info.min, info.max)
 
-- 
2.43.0


From cd67cafab4451b2da32a5577003b2cb970778224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 07/32] fix: return all the data when the crystal router runs
 on a single device

With no stages the maximum length stayed zero, so the output was truncated.
---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..5f3f278 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # On a single device there are no stages, and all of its data is kept.
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From e9cac7dfc790d6fbea30ac2369e88bd1c4778463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 08/32] fix: order the nodes of periodic facets
 lexicographically

Facets, like elements, are taken to be in tensor-product order when a mesh is
refined, but were left in the cyclic order of Gmsh.
---
 swirl_fem/common/mesh_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index b5c84b0..8c901a3 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -69,7 +69,10 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
+  # reorder nodes in each facet to follow the lexicographic ordering
+  facets = mesh.cells_dict[facet_elem_type][
+      :, _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
+  for facet_elem in facets:
     for src_tgt_mapping in src_tgt_mappings:
       if all(x in src_tgt_mapping for x in facet_elem):
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-- 
2.43.0


From 15525c672786c6cf8ea74b52d4d710e7daf1097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 09/32] fix: accept sharded keyword arguments in
 jit_distributed

shard_map takes positional arguments only, so calls with a non-static keyword-
only argument, or a static argument before a sharded one, raised a TypeError.
---
 swirl_fem/communication/jit_distributed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..9b06f50 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -85,7 +85,10 @@ def jit_distributed(
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
       g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+      # shard_map only accepts positional arguments.
+      return shmap(
+          lambda args, kwargs: jax.vmap(g, in_axes=0)(*args, **kwargs)
+      )(sharded.args, sharded.kwargs)
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From 2bf807f9bd1b88ea991f59871b3350f5f9516f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 10/32] fix: keep padding elements of uneven partitions out of
 integrals

Their singular jacobians turned integrals of gradients into NaN, and scattering
non-finite padding values contaminated the last node.
---
 swirl_fem/core/fespace.py        | 9 ++++++++-
 swirl_fem/core/gather_scatter.py | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..c86377f 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -23,6 +23,7 @@ from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -339,11 +340,17 @@ class FiniteElementSpace:
                       interpolator.interpolation_matrix_grad(),
                       precision=lax.Precision.HIGHEST)
 
+    # Elements added as padding are degenerate. Replace their (singular)
+    # jacobians so that they contribute zero rather than non-finite values.
+    is_padding = jnp.all(mesh.elements == SENTINEL, axis=-1)[:, None]
+    jacs = jnp.where(is_padding[..., None, None],
+                     jnp.eye(mesh.ndim, dtype=jacs.dtype), jacs)
+
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
     invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
-    jacdets = vmap(vmap(jnp.linalg.det))(jacs)
+    jacdets = jnp.where(is_padding, 0, vmap(vmap(jnp.linalg.det))(jacs))
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
 
diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..e522bba 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -130,7 +130,9 @@ def gather(u, indices, fill_value=SENTINEL):
 def scatter(u: jax.Array, indices: jax.Array, num_nodes: int) -> jax.Array:
   assert u.shape == indices.shape, f'Got: {u.shape} v/s {indices.shape}'
   mask = indices != SENTINEL
-  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(mask * u)
+  # Select rather than multiply, as padding may hold non-finite values.
+  masked_u = jnp.where(mask, u, jnp.zeros_like(u))
+  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(masked_u)
 
 
 def get_unique_node_indices(
-- 
2.43.0


From 474d78504db8949323bc10b61a279d9cd25900b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 11/32] fix: sign of the vorticity

The gradient's entry [i, j] is the derivative of component j along axis i.
---
 swirl_fem/navier_stokes/navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..8b8eaf3 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -487,7 +487,7 @@ class StokesSEM:
 
     def _vorticity(x: jax.Array):
       grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From 90c99edf724a133bf82886ab9c9e652a4aa724aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 12/32] fix: use jax.tree.map, as jax.tree_map no longer exists

---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..fe2f444 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree.map(_windowed, snapshots)  # pytype: disable=module-attr
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..fba47cf 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))  # pytype: disable=module-attr
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))  # pytype: disable=module-attr
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree.map(jnp.shape, metrics))  # pytype: disable=module-attr
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 374acc60583f6d6b0bcaf6f2f3e07241be51288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 13/32] fix: count the windows of each shard separately

The count included windows spanning two shards, which are never created.
---
 swirl_fem/niles/input_pipeline.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index fe2f444..5269f76 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -48,14 +48,16 @@ def get_num_examples(
     split_name: tfds.Split, window_size: int, window_stride: int, debug: bool
 ):
   """Returns the total number of examples."""
-  num_examples = NUM_SPLIT_EXAMPLES[split_name]
+  if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
+    num_shards = len(_TRAIN_SHARDS)
+  else:
+    num_shards = len(_VALID_SHARDS)
+  shard_size = NUM_SPLIT_EXAMPLES[split_name] // num_shards
   if debug:
-    if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
-      num_examples //= 24
-    else:
-      num_examples //= 4
+    num_shards = 1
 
-  return (num_examples - window_size) // window_stride + 1
+  # the windows of each shard are contained within the shard
+  return num_shards * ((shard_size - window_size) // window_stride + 1)
 
 
 def read_snapshots_file(file_path: epath.PathLike) -> dict[str, np.ndarray]:
-- 
2.43.0


From 5ad517b6b2aa94e7ac2624d599b61fc461acec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 14/32] fix: integrate functions that are singular at padding
 coordinates

---
 swirl_fem/core/fespace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index c86377f..1c23136 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -405,6 +405,9 @@ class FiniteElementSpace:
       raise ValueError(
           'Expecting an array of shape (num elements, num quadrature points), '
           f'that is ({expected_shape}) but got: {w.shape}')
+    # Functions need not be finite on the elements added as padding.
+    is_padding = jnp.all(self.mesh.elements == SENTINEL, axis=-1)[:, None]
+    w = jnp.where(is_padding, jnp.zeros_like(w), w)
     quad_weights = self.quadrature.weights_nd(self.interpolator.ndim)
     return jnp.einsum('mq,mq,q->', w, self.jacdets, quad_weights,
                       precision=lax.Precision.HIGHEST)
-- 
2.43.0


From 8d27edc95a4075dbc22108f9d96752779191edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 15/32] fix: refine 3-D meshes to a single node per element

---
 swirl_fem/core/mesh_refiner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..0b409d2 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,7 +110,10 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
+    # Facets of discontinuous elements are never refined (and a single node per
+    # dimension has no interior).
+    facet_dims = premesh.ndim if self.gridpoints_1d.is_continuous() else 0
+    for k in range(1, facet_dims):
       self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
           ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
-- 
2.43.0


From 19958dc48605b2d3a433647ef4cec9222a5e0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 16/32] fix: take the pressure space geometry from the original
 mesh

---
 swirl_fem/navier_stokes/navier_stokes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8b8eaf3..832e8e9 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -118,6 +119,15 @@ class StokesPressure:
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
     pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # The pressure nodes may be too few to represent the geometry of the
+    # elements (there is just one at order 2), so use that of the given mesh.
+    geometry = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    pspace = dataclasses.replace(
+        pspace,
+        invjacs=geometry.invjacs,
+        jacdets=geometry.jacdets,
+        quad_coords=geometry.quad_coords)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From 3289ab9cd6c8230de927f087fa1b0032b359d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 17/32] fix: run the data generation step, which never traced

---
 swirl_fem/niles/datagen/datagen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..82fad0a 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+from functools import partial
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
@@ -132,9 +132,10 @@ def one_cycle(sem: navier_stokes.StokesSEM,
 
   start_time = time.time()
   Cus = tuple(map(sem.C, us))
+  solve_one_step = jax.jit(partial(_solve_one_step, sem))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From adf4abd59880236056abf6ceaf14860ed7cc1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 18/32] fix: route data with more than one dimension in the
 crystal router

Concatenation gave dynamic_update_slice a single start index, so any leaf with
trailing dimensions raised a ValueError.
---
 swirl_fem/communication/crystal_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 5f3f278..0c9b873 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,7 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 6476b12c400b6028821a786a77247431af74c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 19/32] fix: sdeint differentiates only the floating point
 leaves of its arguments

---
 swirl_fem/sde/sdeint.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 580e84d..8477e71 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -157,27 +157,41 @@ def _sdeint_rev(f, reverse, res, y1_bar):
   """
   y1, ts, dw, args = res
 
+  # Only the floating point leaves of `args` have cotangents (as opposed to e.g.
+  # indices and PRNG keys).
+  is_diff = lambda x: jnp.issubdtype(jnp.result_type(x), jnp.inexact)
+  leaves, treedef = jax.tree_util.tree_flatten(args)
+
+  def merge(diff_leaves, args):
+    diff_leaves = iter(diff_leaves)
+    return jax.tree_util.tree_map(
+        lambda x: next(diff_leaves) if is_diff(x) else x, args)
+
   def aug_f(aug_state, t, dw, *args):
     y, y_bar, *_ = aug_state
-    drift_fn = lambda y, *args: f(y, -t, dw, *args)[0]
-    diff_fn = lambda y, *args: f(y, -t, dw, *args)[1]
+    diff_leaves = list(filter(is_diff, jax.tree_util.tree_leaves(args)))
+    drift_fn = lambda y, *ls: f(y, -t, dw, *merge(ls, args))[0]
+    diff_fn = lambda y, *ls: f(y, -t, dw, *merge(ls, args))[1]
 
-    drift_dot, vjpfun = jax.vjp(drift_fn, y, *args)
+    drift_dot, vjpfun = jax.vjp(drift_fn, y, *diff_leaves)
     drift_bar = (-drift_dot, *vjpfun(y_bar))
 
-    diff_dot, vjpfun = jax.vjp(diff_fn, y, *args)
+    diff_dot, vjpfun = jax.vjp(diff_fn, y, *diff_leaves)
     diff_bar = (-diff_dot, *vjpfun(y_bar))
     return drift_bar, diff_bar
 
   # Run augmented system backwards.
-  aug_init_state = (y1, y1_bar, jax.tree_util.tree_map(jnp.zeros_like, args))
+  aug_init_state = (y1, y1_bar, *map(jnp.zeros_like, filter(is_diff, leaves)))
   ts = (-ts[1], -ts[0])
 
-  unused_y0, y_bar, args_bar = _sdeint_wrapper(
+  unused_y0, y_bar, *leaves_bar = _sdeint_wrapper(
       aug_f, not reverse, aug_init_state, ts, dw, *args)
 
   # Note that the differential wrt `t` or `dw` is not implemented, so return
   # None for the corresponding cotangents.
+  leaves_bar = iter(leaves_bar)
+  args_bar = treedef.unflatten(
+      [next(leaves_bar) if is_diff(x) else None for x in leaves])
   return (y_bar, None, None, *args_bar)
 
 
-- 
2.43.0


From 16ade2fcba7e51f9516989d30157fea8979fd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 20/32] fix: lifted sdeint integrates modules without
 parameters and initialises shared ones

---
 swirl_fem/sde/flax_nn_sde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index 1e2027a..f6449d3 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -63,10 +63,11 @@ def core_sdeint(
     x, ts, dw, *additional_args = args
     scope = scope_fn(variable_groups, rng_groups)
 
+    # Having no parameters alone does not mean that they are yet to be created.
     def is_scope_initializing(s):
-      vs = s.variables()
-      return 'params' not in vs or not vs['params']
-    is_initializing = all(map(is_scope_initializing, scope))
+      return s.get_flag('initializing', False) or (
+          s.is_mutable_collection('params') and not s.variables().get('params'))
+    is_initializing = any(map(is_scope_initializing, scope))
 
     if is_initializing:
       drift, diffusion = fn(scope, x, ts[0], dw[0], *additional_args)
-- 
2.43.0


From 1812ed6b76401f90959f1df5d7cd22f0abd3c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 21/32] fix: lifted sdeint initialises modules with pytree
 states

---
 swirl_fem/sde/flax_nn_sde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index f6449d3..1c83966 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -71,7 +71,8 @@ def core_sdeint(
 
     if is_initializing:
       drift, diffusion = fn(scope, x, ts[0], dw[0], *additional_args)
-      out = jnp.stack([drift + diffusion] * len(ts[1:]))
+      out = jax.tree_util.tree_map(
+          lambda a, b: jnp.stack([a + b] * len(ts[1:])), drift, diffusion)
       return out, repack_fn(scope)
     else:
       y_integrated = sdeint(
-- 
2.43.0


From 1af3bae6b11e6997d066d15e531303710a6be918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 22/32] fix: initialisers and activation of the feed-forward
 block are fields, not methods

---
 swirl_fem/niles/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 9214ed2..0204e26 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -69,9 +69,9 @@ class MlpBlock(nn.Module):
   mlp_dim: int
   out_dim: int | None = None
   use_bias: bool = True
-  kernel_init = nn.initializers.xavier_uniform()
-  bias_init = nn.initializers.normal(stddev=1e-6)
-  activation_fn = nn.gelu
+  kernel_init: Any = nn.initializers.xavier_uniform()
+  bias_init: Any = nn.initializers.normal(stddev=1e-6)
+  activation_fn: Any = nn.gelu
   precision: jax.lax.Precision | None = None
   dtype: jnp.dtype = jnp.float32
 
-- 
2.43.0


From 8d3ffc46220eef0a707ad0ae6acff81adf1edcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 23/32] fix: kinetic energy interpolates with the mesh nodes,
 not a missing Mesh method

---
 swirl_fem/niles/train.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index fba47cf..80b553c 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -39,6 +39,7 @@ import numpy as np
 import optax
 import scipy.spatial
 from swirl_fem.common import premesh_commons
+from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Nodes1D
 from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh_refiner import refine_premesh
@@ -59,11 +60,20 @@ def transfer_perm(source_mesh, target_mesh):
   return np.array(perm, dtype=np.int32)
 
 
+def _interpolate(u, source_mesh, target_mesh):
+  """Interpolates nodal values to another mesh with the same elements."""
+  interpolator = BarycentricInterpolator(
+      source_mesh.ndim, source_mesh.gridpoints_1d, target_mesh.gridpoints_1d)
+  u_local = vmap(interpolator.interpolate)(source_mesh.gather(u))
+  return jnp.zeros(target_mesh.num_nodes, dtype=u_local.dtype).at[
+      target_mesh.elements].set(u_local)
+
+
 def get_tke(u, sem, uniform_mesh, first_order_perm, config):
   """Computes the turbulent kinetic energy (TKE) of a velocity field."""
   n = int(math.sqrt(config.num_nodes))
-  u_flat = jax.vmap(partial(uniform_mesh.interpolate,  # pytype: disable=attribute-error
-                            source_mesh=sem.velocity.mesh),
+  u_flat = jax.vmap(partial(_interpolate, source_mesh=sem.velocity.mesh,
+                            target_mesh=uniform_mesh),
                     in_axes=-1, out_axes=-1)(u)
   u_flat = u_flat[first_order_perm]
   u_flat = u_flat.reshape((n, n, 2))
-- 
2.43.0


From 3bd1ca9eb5a4d55f0783f4d7c37c4c3306aaf6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 24/32] fix: do not report errors of steps which were not
 rolled out

---
 swirl_fem/niles/train.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 80b553c..a310abd 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -374,11 +374,10 @@ def compute_metrics(loss, aux, train: bool):
   if not train:
     metrics['tke_err'] = aux['tke_err']
     metrics['mse@1to8'] = aux['mse'][:8].mean()
-    metrics['mse@8'] = aux['mse'][8 - 1]
-    metrics['mse@16'] = aux['mse'][16 - 1]
-    metrics['mse@32'] = aux['mse'][32 - 1]
-    metrics['mse@64'] = aux['mse'][64 - 1]
-    metrics['mse@128'] = aux['mse'][128 - 1]
+    for i in (8, 16, 32, 64, 128):
+      # only the steps which were rolled out have an error
+      if i <= len(aux['mse']):
+        metrics[f'mse@{i}'] = aux['mse'][i - 1]
 
   logging.info('metrics: %s', jax.tree.map(jnp.shape, metrics))  # pytype: disable=module-attr
   metrics = lax.pmean(metrics, axis_name='batch')
-- 
2.43.0


From 52900e0bfc578dcd77ea9ad88efdcb272396df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 25/32] fix: the closure model accepts the train flag passed by
 the loss

---
 swirl_fem/niles/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 0204e26..45a5616 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -477,6 +477,7 @@ class Model(nn.Module):
                inputs: jnp.ndarray,
                z_rng: jax.Array,
                *,
+               train: bool = False,
                debug: bool = False):
     """Applies Transformer model on the input x."""
     dtype = jax.dtypes.canonicalize_dtype(self.dtype)
-- 
2.43.0


From 1a426752dfd7e490da7220c9ed9f58413bf6211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 26/32] fix: the training config has the entries read by
 create_model and LatentSDE

---
 swirl_fem/niles/config/niles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/niles/config/niles.py b/swirl_fem/niles/config/niles.py
index 77971da..80ae7f7 100644
--- a/swirl_fem/niles/config/niles.py
+++ b/swirl_fem/niles/config/niles.py
@@ -34,6 +34,10 @@ def get_config():
   config.model_name = 'multiscale_transformer'
   config.model = ml_collections.ConfigDict()
   config.model.width = 48
+  # below are unused currently in the multiscale version
+  config.model.num_layers = 4
+  config.model.num_heads = 4
+  config.model.freeze_encoder = False
 
   # configure the multiscale encoder. set depth = 0 to disable
   config.model.use_residuals = True
@@ -61,6 +65,7 @@ def get_config():
   config.model.processor_config.latent_size = config.model.width * 4
   config.model.processor_config.num_gridpoints = 16
   # below are unused currently in the transformer version
+  config.model.processor_config.num_layers = 4
   config.model.processor_config.num_sde_layers = 4
   config.model.processor_config.context_size = 32
   config.model.processor_config.hidden_size = 32
-- 
2.43.0


From 64cd4abca25f3a8c77e9e0316693cbd35b28737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 27/32] fix: the latent ODE (one sample) carries the KL
 component its dynamics expect

---
 swirl_fem/niles/transformer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 45a5616..2815f6e 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -878,8 +878,11 @@ class LatentSDE(nn.Module):
     sde_nn = nn_sdeint(Dynamics)(num_layers=self.model_config.num_sde_layers,
                                  latent_size=self.latent_size)
     context = z0
-    z1 = jax.vmap(sde_nn)(z0, ts, dw, context)
-    return z1
+    # append another dim to z0 to track the KL term
+    aug_z0 = jnp.concatenate(
+        [z0, jnp.zeros((batch_size, 1), dtype=jnp.float32)], axis=-1)
+    aug_z1 = jax.vmap(sde_nn)(aug_z0, ts, dw, context)
+    return aug_z1[..., :latent_size]
 
   def sample_sde(self, z0, rng):
     assert z0.ndim == 2, z0.shape
@@ -957,6 +960,8 @@ class LatentSDE(nn.Module):
       else:
         logging.info('using ODE sampler for num samples: %d', self.num_samples)
         z1 = self.sample_transformer(z0)
+        kl_path = jnp.zeros((batch_size, self.num_samples), dtype=jnp.float32)
+        kl_q0 = jnp.zeros((batch_size,), dtype=jnp.float32)
 
       assert z1.shape == (
           batch_size, self.num_samples, seq_len * self.latent_size), z1.shape
-- 
2.43.0


From 162209a8739482e9dbfa45608b57f1726180709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 28/32] fix: exchange with unique indices sums in the dtype of
 the nodal values

---
 swirl_fem/core/gather_scatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index e522bba..d8f4ef7 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -241,7 +241,10 @@ def exchange(
     # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
     # to make this static computation more transparent.
     num_unique_nodes = 1 + unique_indices.max()
-    updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
+    # Sum in the dtype of `u`, so that integer and complex values stay exact.
+    dtype = jnp.promote_types(u.dtype, jnp.int32)
+    updates = jnp.zeros(num_unique_nodes, dtype=dtype)
+    updates = updates.at[unique_indices].add(initial_values)
   else:
     updates = initial_values
 
-- 
2.43.0


From d8cb0f7ae5b4b6f5adf992205da1e8a60f12e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 29/32] fix: gradient and divergence of vector-valued
 coordinate functions

---
 swirl_fem/core/fespace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 1c23136..5a44289 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -238,8 +238,9 @@ def grad(f: QFunction) -> QFunction:
   elif isinstance(f, VectorNodalQFunction):
     return VectorNodalQFunctionGrad(fespace=f.fespace, u_local=f.u_local)
   # We expect that it's a jax function of the coordinate (x), in which case
-  # fall back to the symbolic implementation of gradient.
-  return jax.grad(f)
+  # fall back to the symbolic implementation of gradient. As for the nodal
+  # functions above, the axis of the derivative comes first.
+  return lambda x: jnp.moveaxis(jax.jacobian(f)(x), -1, 0)
 
 
 def div(f: QFunction) -> QFunction:
-- 
2.43.0


From 88354f9349b6aa02ddf603de562c429135eb654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 30/32] fix: read periodicity of 1-D meshes, and mesh files
 without a periodic facet

---
 swirl_fem/common/mesh_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 8c901a3..e69dda8 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -38,13 +38,14 @@ from swirl_fem.core.premesh import Premesh
 #   |/   |/      |/   |/
 #   0----1       0----4
 _NODE_ORDERING_PERMUTATIONS = {
+    0: [0],
     1: [0, 1],
     2: [0, 3, 1, 2],
     3: [0, 4, 3, 7, 1, 5, 2, 6],
 }
 
 
-def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
+def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray | None:
   """Obtains periodic links from the meshio Mesh.
 
   Args:
@@ -53,7 +54,8 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
 
   Returns:
     An array with a list of pairs of facets which share a periodic connection.
-    See documentation of `Premesh` for the detailed specification.
+    See documentation of `Premesh` for the detailed specification. None if no
+    facet of the mesh is periodic.
   """
   # Create the mapping from source nodes to target nodes for each periodic
   # connection in the mesh among entities of dimension `ndim - 1`. These are kept
@@ -67,7 +69,7 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
 
   # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
   # facet. If so, save it as a periodic link.
-  facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
+  facet_elem_type = {0: 'vertex', 1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
   # reorder nodes in each facet to follow the lexicographic ordering
   facets = mesh.cells_dict[facet_elem_type][
@@ -78,6 +80,8 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
         periodic_links.append(np.stack([facet_elem, target_elem]))
 
+  if not periodic_links:
+    return None
   return np.stack(periodic_links, dtype=np.int32)
 
 
-- 
2.43.0


From afe99ee779737c839b0d8fae2da65fe728ad273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 31/32] fix: distribute functions with *args after a static
 argument

---
 swirl_fem/communication/jit_distributed.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index 9b06f50..55af43a 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -84,11 +84,15 @@ def jit_distributed(
     nonsharded = bind(nonsharded_args, *args, **kwargs)
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
-      g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
+      # Bind again from all arguments: `*args` following a static argument can
+      # only be passed after it.
+      def g(arguments):
+        arguments = {**nonsharded.arguments, **arguments}
+        bound = inspect.BoundArguments(
+            sig, {x: arguments[x] for x in sig.parameters if x in arguments})
+        return f(*bound.args, **bound.kwargs)
       # shard_map only accepts positional arguments.
-      return shmap(
-          lambda args, kwargs: jax.vmap(g, in_axes=0)(*args, **kwargs)
-      )(sharded.args, sharded.kwargs)
+      return shmap(jax.vmap(g, in_axes=0))(dict(sharded.arguments))
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From 8d75a5a398b2fd6c60401f4466083253fac88d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 32/32] fix: evaluate on the whole validation set if
 steps_per_eval is -1

---
 swirl_fem/niles/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index a310abd..afc2de5 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -580,9 +580,9 @@ def train_and_evaluate(config: ml_collections.FrozenConfigDict,
     num_steps = config.num_train_steps
 
   if config.steps_per_eval == -1:
-    num_validation_examples = (
-        input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION]  # pyrefly: ignore[missing-attribute]
-        // config.batch_size
+    num_validation_examples = input_pipeline.get_num_examples(
+        tfds.Split.VALIDATION, window_size=config.eval_window_size,  # pyrefly: ignore[missing-attribute]
+        window_stride=config.eval_window_stride, debug=config.debug
     )
     steps_per_eval = num_validation_examples // config.batch_size
   else:
-- 
2.43.0

