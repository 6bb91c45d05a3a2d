"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
I, CF, H, S, PR = 'inputs', 'configurations', 'histories', 'schedules', 'programs'

p('C01', 'Interpolation and differentiation reproduce every polynomial they can',
  'Interpolating nodal values of a polynomial of degree below the number of nodes per direction returns that polynomial at every evaluation point, inside or outside the reference element, and the gradient interpolation returns its exact partial derivatives, component by component. This holds for every node family, number of nodes, space dimension and choice of evaluation nodes, including evaluation points that coincide with grid points.',
  [I, CF], 'for all nodal polynomials, all evaluation points (real), all node families x node counts x dimensions 1-3 within bounds',
  'Tests sample a few polynomials, node counts and points; the claim ranges over all coefficients and over a continuum of evaluation points.',
  ['swirl_fem/core/interpolation.py'],
  [('barycentric weights per node family', 'core/interpolation.py: BarycentricInterpolator'),
   ('tensor-product (kronecker) assembly of value and gradient matrices', 'core/interpolation.py: interpolation_matrix, interpolation_matrix_grad')])
p('C02', 'Quadrature rules are exact to their stated degree with positive weights',
  'A one-dimensional quadrature rule integrates every polynomial up to its degree of exactness (2n-1 for Gauss-Legendre, 2n-3 for Gauss-Lobatto-Legendre, 1 for the composite trapezoid rule) over [-1, 1], its weights are positive, and its nodes are strictly increasing and match the nodes of the same family. The tensor-product weights integrate products of such polynomials over the n-dimensional cube, in the same node order as the interpolation matrices.',
  [I, CF], 'for all polynomials up to the degree of exactness, all rules and sizes within bounds, dimensions 1-3',
  'Tests evaluate a handful of integrands on a handful of rules.',
  ['swirl_fem/core/interpolation.py'],
  [('closed forms for nodes and weights', 'core/interpolation.py: Nodes1D.create, Quadrature1D.create_from_nodes_1d'),
   ('outer products of weights', 'core/interpolation.py: Quadrature1D.weights_nd')])
p('C03', 'Time-stepping coefficients extrapolate and differentiate exactly',
  'The backward differentiation coefficients of order k applied to k+1 equally spaced samples (oldest first) give the time step times the derivative at the newest sample, for every polynomial of degree at most k. The order-k extrapolation coefficients give the value one step ahead for every polynomial of degree at most k.',
  [I, CF], 'for all polynomial histories of degree at most k, any origin and any positive step, k = 1..8',
  'Tests compare tabulated values for a few orders.',
  ['swirl_fem/navier_stokes/navier_stokes.py', 'swirl_fem/core/interpolation.py'],
  [('coefficients from interpolation/differentiation matrices on equispaced nodes', 'navier_stokes/navier_stokes.py: bdfk_coeffs, extk_coeffs')])
p('C04', 'Gather and scatter are adjoint and ignore padding',
  'Gathering copies each node value to every element slot that names the node and puts the fill value in padding slots; scattering adds every non-padding slot to its node and nothing else, so the two are transposes of each other on real slots. Whatever values padding slots hold, including infinities and NaN, they never influence a scattered result, an exchanged value or an integral.',
  [I], 'for all index arrays (with any number of padding entries and repeats) and all node and slot values, including non-finite ones in padding',
  'Tests use fixed meshes and finite values; the claim is over all index patterns and all values.',
  ['swirl_fem/core/gather_scatter.py', 'swirl_fem/core/mesh.py', 'swirl_fem/core/fespace.py'],
  [('sentinel masking', 'core/gather_scatter.py: gather, scatter'), ('padding elements', 'core/fespace.py: FiniteElementSpace.create')])
p('C05', 'Exchange adds up all copies of a node and nothing else',
  'After an exchange, every stored copy of a degree of freedom holds the sum of the values all its copies held before, wherever the copies live (same partition through periodicity, or other partitions), and values of nodes with a single copy and padding are unchanged. Consequently exchanged copies agree, and the operation is linear and symmetric.',
  [I, CF, PR], 'for all assignments of global ids to local nodes (up to the bound), with and without partitions and padding, and all nodal values',
  'Tests check particular small layouts with particular values.',
  ['swirl_fem/core/gather_scatter.py', 'swirl_fem/core/mesh.py'],
  [('exchange index construction', 'core/gather_scatter.py: get_exchange_indices'), ('sum over copies', 'core/gather_scatter.py: exchange')])
p('C06', 'Periodic links identify exactly the connected nodes',
  'Two nodes get the same unique index if and only if they are equal or connected by a chain of periodic links, in whatever order and direction the links are listed. The index given to a class is one of its members and is the same for all of them, and nodes without links keep their own index.',
  [I], 'for all lists of periodic links and all node index arrays within bounds, one- or two-dimensional',
  'Tests use one or two link patterns; transitive chains across corners arise for arbitrary link graphs.',
  ['swirl_fem/core/gather_scatter.py'],
  [('connected components with a minimum representative', 'core/gather_scatter.py: get_unique_node_indices')])
p('C07', 'A partitioned mesh is the serial mesh, distributed',
  'For any assignment of elements to partitions, every element appears on exactly the assigned partition with its own corner nodes, coordinates and order intact (also across periodic boundaries), and only padding is added. Gather, scatter followed by exchange, and integrals over the partitioned mesh give the same values as on the unpartitioned mesh, and node ids and boundary masks agree between the two.',
  [I, CF], 'for all assignments of elements to partitions (including uneven and single-element ones), with and without periodicity, and all nodal fields',
  'Tests use a few even block partitions and fixed fields.',
  ['swirl_fem/core/premesh.py', 'swirl_fem/core/gather_scatter.py', 'swirl_fem/core/mesh.py'],
  [('grouping and local renumbering', 'core/gather_scatter.py: group_by_partitions, get_local_elements'), ('finalisation', 'core/premesh.py: Premesh.finalize')])
p('C08', 'The unit cube mesh has the right geometry, topology and labels',
  'The generated mesh has a uniform grid of nodes from the lower to the upper bound in every direction, and its elements are exactly the grid cells with corners in lexicographic order. The boundary group holds exactly the facets on non-periodic sides, the periodic links pair each facet on one side of a periodic direction with its translate on the other, corner by corner, and each element carries the partition label of the block that contains it.',
  [I, CF], 'for all bounds a, b, all subsets of periodic directions, all partition label arrays, mesh sizes and dimensions within bounds',
  'Tests look at shapes and a few fixed instances.',
  ['swirl_fem/common/premesh_commons.py', 'swirl_fem/common/facet_util.py'],
  [('facet enumeration', 'common/premesh_commons.py: unit_cube_mesh')])
p('C09', 'Refinement yields a conforming high-order mesh for every orientation',
  'Refining a first-order mesh puts the nodes of each element at the tensor-product interpolated positions of that element, keeps the original corners, and makes neighbouring elements share exactly the nodes on their common facet, however the neighbours are rotated or reflected relative to each other. Refined boundary facets are the refined nodes of the original facets, refined periodic links pair corresponding points of linked facets whatever the corner order in which they are listed, and discontinuous node families share no nodes.',
  [I, CF, PR], 'for all vertex coordinates, all relative orientations of neighbouring elements and of boundary and periodic facets, dimensions 1-3, orders within bounds',
  'Tests use regular grids, whose neighbours are all oriented alike.',
  ['swirl_fem/core/mesh_refiner.py', 'swirl_fem/common/facet_util.py'],
  [('facet deduplication with orientation permutations', 'core/mesh_refiner.py: refine_premesh'), ('orderings', 'common/facet_util.py: get_orderings_mapping')])
p('C10', 'Reading a mesh file preserves geometry and periodic pairing',
  'Every element read from a mesh file has the same corner nodes as in the file, reordered so that the corners of lines, quadrilaterals and hexahedra are in lexicographic order. Every boundary facet that the file declares periodic yields a link from the facet to its image under the same periodic entity, corner by corner and in lexicographic order, and no other links are made; missing element types and invalid dimensions are rejected.',
  [I, PR], 'for all node numberings of the cells, all sets of periodic entities sharing edges and corners, dimensions 1-3',
  'Tests read four fixed files and check array shapes.',
  ['swirl_fem/common/mesh_reader.py'],
  [('node ordering permutation', 'common/mesh_reader.py: read'), ('periodic links', 'common/mesh_reader.py: read')])
p('C11', 'Graph partitioning sees exactly the element adjacency',
  'The graph handed to the partitioner joins two elements if and only if they are different and share at least one node, and every element is a vertex of it. Each element receives the label the partitioner returned for it, and the result can be finalised into a partitioned mesh with nothing else about the mesh changed.',
  [I, PR], 'for all element connectivities and all label vectors within bounds',
  'Tests partition one or two regular meshes and check the labels are in range.',
  ['swirl_fem/common/mesh_partitioner.py'],
  [('paths of length two in the element-node graph', 'common/mesh_partitioner.py: partition')])
p('C12', 'Integrals, gradients and divergences are exact on mapped elements',
  'On meshes of affine (also sheared, stretched or rotated) elements, nodal functions that represent a polynomial in physical coordinates are integrated exactly, and their gradients and divergences evaluate to the exact physical derivatives with derivative index first and component last. Integrals are sums over elements that scale with the mapped volume, on straight-sided elements the integral of one is the volume, and gradients of affine functions are exact.',
  [I, CF], 'for all polynomial coefficients, all affine element geometries in a box, and all straight-sided geometries in a box, scalar and vector functions, dimensions 1-3',
  'Tests use a few functions on a few fixed geometries.',
  ['swirl_fem/core/fespace.py', 'swirl_fem/core/interpolation.py'],
  [('jacobians and their inverses', 'core/fespace.py: FiniteElementSpace.create'), ('chain rule', 'core/fespace.py: grad, div')])
p('C13', 'Covectors represent their linear form exactly',
  'The local covector of a form, paired with any nodal values of the placeholder function, equals the integral of the form with those values substituted, for scalar and vector placeholders, gradients and divergences, and any position of the placeholder. Mass and stiffness operators built this way are symmetric and positive semi-definite, constants are in the kernel of the stiffness operator, and forms without exactly one placeholder are rejected.',
  [I, PR, CF], 'for all nodal values of all functions, several forms, curved geometries, quadratures and orders within bounds',
  'Tests compare a few assembled vectors.',
  ['swirl_fem/core/fespace.py'],
  [('linear transposition of the integral', 'core/fespace.py: FiniteElementSpace.local_covector')])
p('C14', 'The Poisson solver poses the right discrete problem',
  'The linear system solved for Poisson\'s equation has, at every unconstrained node, the exact integrals of the product of gradients on the left and of the forcing times the test function on the right, and zero rows at Dirichlet nodes on both sides; Neumann groups impose nothing. The operator is symmetric and positive on fields vanishing at Dirichlet nodes, the tolerances reach the solver unchanged, and unsupported boundary values are rejected.',
  [I, CF], 'for all forcings and fields, mixed Dirichlet/Neumann groups, dimensions 1-3, orders and perturbed geometries within bounds',
  'Tests check convergence to a few manufactured solutions within loose tolerances.',
  ['swirl_fem/examples/poisson.py', 'swirl_fem/core/fespace.py'],
  [('operators and boundary mask', 'examples/poisson.py: solve_poisson')])
p('C15', 'Conjugate gradients keep their invariants and stop when they say',
  'Every iteration keeps the recurrence residual equal to the true residual and searches along directions conjugate to the previous one under the operator, with the supplied preconditioner and inner product. It continues exactly while the squared preconditioned residual exceeds the larger of the squared relative (to the right-hand side) and absolute tolerances and the iteration limit is not reached, and reports the residual and iteration count of the state it returns, starting from the given guess or from zero.',
  [I, H], 'for all symmetric operators, right-hand sides, guesses, tolerances and limits; one inductive step from any state satisfying the invariant plus complete short runs',
  'Tests solve a few random systems.',
  ['swirl_fem/linalg/cg.py'],
  [('iteration body and stopping test', 'linalg/cg.py: cg')])
p('C16', 'Stokes operators are mutually consistent and respect the boundary',
  'The pressure gradient operator is the transpose of the divergence operator on fields vanishing at Dirichlet nodes, the stiffness and mass operators are symmetric on them, and all of these and the convection operator vanish at Dirichlet nodes. The inverse mass operator inverts the assembled mass on fields that agree on periodic copies, the divergence and the vorticity (dv/dx - du/dy) are exact for linear flows, convection is the weak form of (u.grad)u, and the filter keeps all polynomials below the top degree and damps by exactly the given fraction.',
  [I, CF], 'for all velocity and pressure fields, on perturbed, periodic and Dirichlet meshes, orders within bounds',
  'Tests check a few operators on a few fields.',
  ['swirl_fem/navier_stokes/navier_stokes.py'],
  [('operators', 'navier_stokes/navier_stokes.py: StokesSEM, StokesVelocity, StokesPressure')])
p('C17', 'A Stokes step satisfies the discrete equations and stays divergence free',
  'Given exact inner solves, one step returns a velocity whose discrete divergence is zero, whose intermediate velocity satisfies the implicit momentum balance with the backward differentiation history and extrapolated pressure, and a pressure equal to the extrapolated pressure plus the computed correction. At Dirichlet nodes the returned velocity is the prescribed one up to the stabilising filter (unchanged if the filter fraction is zero or the prescribed field is below the top degree), and tolerances and preconditioners reach both inner solves.',
  [I, CF, H], 'for all velocity and pressure histories, forcings, boundary velocities, viscosities and steps in a box, time orders 1-3, with and without periodicity',
  'Tests run a few flows to a final time and compare with loose tolerances.',
  ['swirl_fem/navier_stokes/navier_stokes.py', 'swirl_fem/linalg/cg.py'],
  [('fractional step', 'navier_stokes/navier_stokes.py: StokesSEM.stokes_one_step')])
p('C18', 'Parallel scans and reductions equal the sequential fold',
  'The exclusive prefix scan gives each device the ordered combination of the values on all lower devices, with the operation\'s identity on the first, and the reduction gives every device the combination of all values. This holds for every number of devices, every supported operation, data type (including infinities) and array structure, with and without the accompanying reduction.',
  [I, CF, S], 'for all values on every device, device counts 1..17, all supported operations and dtypes',
  'Tests use up to eight devices with random finite values.',
  ['swirl_fem/communication/pscan.py', 'swirl_fem/communication/semi_traced_scalar.py'],
  [('binary fan-in/fan-out', 'communication/pscan.py: pscan, preduce'), ('identity table', 'communication/pscan.py: unit_table')])
p('C19', 'The crystal router delivers every message exactly once',
  'Every valid entry arrives exactly once, with all the leaves of its data intact and aligned, on the device it is addressed to, and nothing else arrives; the reported lengths count the arrivals and the reported sources name the senders. This holds for every device count, every distribution of lengths and targets, and when intermediate buffers have to grow, and routing the result back to its sources restores the original data up to order.',
  [I, CF, S], 'for all lengths and target patterns, device counts and buffer sizes within bounds, with and without sources',
  'Tests route random patterns on up to eight devices.',
  ['swirl_fem/communication/crystal_router.py', 'swirl_fem/communication/semi_traced_scalar.py'],
  [('stages with partner schedule', 'communication/crystal_router.py: crystal_router_setup'), ('buffer growth and resumption', 'communication/crystal_router.py')])
p('C20', 'Distributed compilation maps a function over devices',
  'A distributed-compiled function applied to sharded arguments returns, at each device index, exactly what the original function returns for that index\'s slices, with collectives running over the named axis. Static arguments are passed to every device unchanged whether given by position, keyword or default, keyword-only arguments are static unless declared otherwise, and functions without sharded arguments still produce one result per device.',
  [I, CF, PR], 'for all argument values, device counts, signatures and calling conventions within bounds',
  'Tests call a handful of functions in one convention each.',
  ['swirl_fem/communication/jit_distributed.py'],
  [('argument binding and sharding', 'communication/jit_distributed.py: jit_distributed')])
p('C21', 'Local and global views of a semi-traced scalar always agree',
  'For every expression built from axis indices, axis sizes and constants with arithmetic, comparison, bitwise and selection operators, in direct or reflected form, the value on device i equals entry i of the global view.',
  [I, PR, CF], 'for all operand values in the common range, all operators and operand orders, all device indices, device counts within bounds',
  'Tests apply a few operators at one device count.',
  ['swirl_fem/communication/semi_traced_scalar.py'],
  [('lifted operators', 'communication/semi_traced_scalar.py: SemiTracedScalar')])
p('C22', 'The SDE solver computes the Euler-Heun recursion on every segment',
  'Integrating over a list of output times returns at each time the state given by the Euler-Heun recursion with equal steps inside each segment and the segment\'s own Brownian increments, starting from the state at the previous output time. Integrating in several segments equals integrating piecewise, the state keeps its structure, and the extra arguments and the correct time reach the drift and diffusion at each step.',
  [I, CF, H], 'for all initial states, increments, times and coefficients of polynomial drift and diffusion, numbers of steps and segments within bounds',
  'Tests compare statistics or errors on sampled paths.',
  ['swirl_fem/sde/sdeint.py'],
  [('stepping', 'swirl_fem/sde/sdeint.py: sdeint')])
p('C23', 'Adjoint SDE gradients are exact where the scheme allows it',
  'Differentiating the solver gives the exact gradient of the computed final state with respect to the initial state for linear drift and diffusion with constant coefficients, and with respect to parameters of drift and diffusion that depend on neither state nor time. For general smooth drift and diffusion, the error over one step is of higher order than the step, with no terms of order dt, dw or dw squared. Arguments without derivatives, such as indices and random keys, pass through without affecting the gradients of the others.',
  [I, CF, H], 'for all initial states, coefficients, increments, cotangents and times, numbers of steps and segments within bounds',
  'Tests compare sampled gradients with loose tolerances.',
  ['swirl_fem/sde/sdeint.py'],
  [('reverse-time augmented system', 'swirl_fem/sde/sdeint.py: sdeint')])
p('C24', 'Boundary masks mark exactly the nodes of the physical group',
  'A node is marked by the mask of a physical group if and only if it, or a node periodically identified with it, belongs to a facet of the group; this holds on unpartitioned and on every partition of partitioned meshes, and padding is never marked.',
  [I, CF], 'for all facet sets, periodic links and partition assignments within bounds',
  'Tests use groups that do not meet periodic boundaries.',
  ['swirl_fem/core/premesh.py'],
  [('mask construction', 'core/premesh.py: Premesh.finalize')])
p('C25', 'Training windows and element permutations lose nothing',
  'Snapshots are cut into all windows of the requested length at multiples of the stride that fit inside a shard, each with the requested inner step and in order, and the advertised number of examples equals the number of windows produced, also in debug mode. Each process gets an equal, disjoint, contiguous share with velocities, pressures and times aligned, and training and validation shards are disjoint. The stream of batches deals every process its windows with the numbers of the files in double precision: every batch is full, every epoch deals a window at most once and leaves out fewer than one batch, and the stream does not end. The multiscale ordering of the elements of a square grid is a permutation that keeps the elements of each patch contiguous at every level.',
  [I, CF], 'for all snapshot contents and shard lengths, window sizes, strides and steps within bounds; all grid factorisations within bounds',
  'There are no tests for the data pipeline.',
  ['swirl_fem/niles/input_pipeline.py', 'swirl_fem/niles/train.py'],
  [('windowing', 'niles/input_pipeline.py'), ('multiscale permutation', 'niles/train.py: make_multiscale_perm')])
p('C26', 'Facets partition an element and orientations compose',
  'Every node of a tensor-product element belongs to the interior of exactly one facet, and there are binomially many facets of each dimension. The permutation of interior nodes listed for a reordering of the corners is the one induced by the same symmetry of the cube, all symmetries are listed, and composing two of them composes their permutations.',
  [I, CF], 'for all nodes of elements of any order and all pairs of cube symmetries within bounds, dimensions 1-3 (facet partition 1-4)',
  'Tests check a few tabulated permutations.',
  ['swirl_fem/common/facet_util.py'],
  [('facet types and orderings', 'common/facet_util.py: get_facet_types, slice_from_facet_type, get_orderings_mapping')])
p('C27', 'Training schedules stay within their bounds and reach their targets',
  'The learning-rate schedules start from their initial value, reach the base rate at the end of warm-up, are monotone on each phase, decay to zero at their end, and never exceed the base rate or go negative. The penalty schedule stays between its initial and final value and is monotone in the step.',
  [I, CF], 'for all steps and all schedule parameters within bounds',
  'There are no tests for the training code.',
  ['swirl_fem/niles/train.py'],
  [('schedules', 'niles/train.py: create_updown_learning_rate_fn, create_learning_rate_fn, create_kl_penalty_fn')])
p('C28', 'Discrete solutions converge at the expected rate',
  'As the mesh is refined or the order raised, the computed Poisson, Navier-Stokes and SDE solutions approach the exact solution at the rate of the scheme.',
  [I, CF], 'for all smooth solutions, in the limit of refinement',
  'Tests sample a few solutions at a few resolutions; the claim is asymptotic.',
  ['swirl_fem/examples/poisson.py', 'swirl_fem/navier_stokes/navier_stokes.py', 'swirl_fem/sde/sdeint.py'],
  [('discretisation', 'core/fespace.py; navier_stokes/navier_stokes.py; sde/sdeint.py')])
p('C29', 'Brownian increments scale independent normal draws to unit total variance',
  'A sampled Brownian path of n increments is n independent standard normal draws from the given key, each scaled by one over the square root of n, so that the variances sum to one over the unit interval. The result has n entries of the requested type.',
  [I], 'for all values of the standard normal draws, and path lengths within bounds',
  'A test can only sample keys.',
  ['swirl_fem/sde/sdeint.py'],
  [('scaled normal increments', 'sde/sdeint.py: brownian_path')])
p('C30', 'The closure model computes its documented attention and latent dynamics',
  'For every value of its parameters and inputs, the multiscale transformer is the documented composition: a linear embedding plus learned positions; blocks of layer norm, attention over pooled (encoder) or tiled (decoder) queries, keys and values with the pooled query added, a max-pooled or tiled skip, layer norm and a GELU feed-forward layer with a (projected) skip; feature size and heads doubling at pooling layers and halving back, encoder activations added to the decoder at the matching resolution. Samples of a batch do not influence each other, and unpooled blocks commute with permutations of the tokens. The latent dynamics give each coordinate its own positive diffusion, accumulate half the squared difference of posterior and prior drift over the diffusion (never negative, never fed back into the state), and use the context in the posterior drift only; the initial divergence is that of Gaussians of the prior scale around the latent and around zero. With a single sample the latent follows the drift alone and reports no divergence. With more samples the noise is decided by the key of the call: the same key gives the same result, another key another one.',
  [I, CF], 'for all inputs, parameters and random draws, with exponentials, roots and activation functions left uninterpreted, for architecture options and sizes within bounds',
  'There are no tests for the model; the claim ranges over all network parameters.',
  ['swirl_fem/niles/transformer.py'],
  [('pooled attention', 'niles/transformer.py: attention_pooling, MultiScaleAttentionDownSample, MultiScaleAttentionUpsample'), ('blocks and towers', 'niles/transformer.py: EncoderBlock, DecoderBlock, MultiscaleEncoder, MultiscaleDecoder, Model'), ('latent dynamics', 'niles/transformer.py: Drift, Diffusion, VariationalDriftDiffusion, Dynamics, LatentSDE')])
p('C31', 'The flow drivers feed the solver correctly and record its states',
  'One step of the Kolmogorov flow drivers (data generation and training) hands the Stokes solver the last velocities and pressures in order, minus the convection history extrapolated one step ahead with order one less than the time order, plus the mass-weighted forcing (and closure term) at the newest velocity, the inverse Reynolds number and the time step, and returns the new velocity, pressure and its convection. A data generation cycle iterates this step with histories that shift by one and records the initial and every tenth state with the matching times; it returns the final histories, so that consecutive cycles continue the same trajectory.',
  [I, CF, H], 'for all histories, solver answers, closure terms, Reynolds numbers, time steps and drags, time orders 2-4, cycles of up to 41 steps',
  'There are no tests for the drivers; a run at production size takes days.',
  ['swirl_fem/niles/datagen/datagen.py', 'swirl_fem/niles/train.py'],
  [('time loop and recording', 'niles/datagen/datagen.py: one_cycle'), ('one step', 'niles/datagen/datagen.py: _solve_one_step; niles/train.py: _solve_one_step')])
p('C32', 'The rollout loss and the training step follow their definition',
  'The rollout loss starts from the first snapshots of a window, feeds the newest velocity element by element (in the multiscale order) to the model at each step, adds the model output of each element to that element\'s own nodes as forcing, and is the sum over steps of the batch mean of half the squared distance to the snapshot of the same time, plus the penalty times the batch mean of the divergences summed over steps. Pushforward steps contribute no gradient through the model output. No two steps of a rollout use the same random key, nor do dropout and latent draws, and the same key gives the same draws. Training applies the device-averaged gradient with rate, penalty and random key of the current step, and the reported metrics are device averages of the named quantities; the error at step N is reported when N steps were rolled out. Model, loss, steps and the shipped configuration fit together.',
  [I, CF, H, PR], 'for all snapshots, model parameters and penalties, batch sizes, time orders, rollout lengths, pushforward counts and device counts within bounds',
  'There are no tests for the training code.',
  ['swirl_fem/niles/train.py'],
  [('rollout', 'niles/train.py: compute_mse_loss'), ('steps and metrics', 'niles/train.py: train_step, eval_step, compute_metrics')])
p('C33', 'Integrating a flax module is integrating its pure function',
  'Applying a lifted SDE module returns exactly what the SDE solver returns for the drift and diffusion the module computes, with its parameters, other collections, submodules, extra arguments and random streams reaching every step, for modules with and without parameters, sharing modules with their parent, with pytree states, batched and applied repeatedly. Its gradients are those of the solver on the pure function. Initialising it creates exactly the parameters that applying it uses, and an output of the same structure and shape.',
  [I, CF], 'for all parameter values, states, times, increments and cotangents; modules, numbers of steps and segments within bounds',
  'Tests compare one module on sampled values.',
  ['swirl_fem/sde/flax_nn_sde.py', 'swirl_fem/sde/sdeint.py'],
  [('lifting', 'sde/flax_nn_sde.py: core_sdeint, nn_sdeint')])
p('C34', 'Spectra describe the modes of the field on the uniform lattice',
  'The kinetic energy of a velocity field assigns to every pair of signed frequencies, lowest first, half the summed squared moduli of the Fourier coefficients of its components, sampled by evaluating the piecewise polynomial field at the points of the uniform lattice in lattice order. The spectrum sums these energies over disjoint shells lo <= |k| < hi of equal width, of which the first eighteen of nineteen up to the largest wavenumber are returned with their outer radii, ascending. Transferring between meshes gives every target node, in order, the nearest source node. The evaluation error is the batch mean of the summed squared differences of the log spectra of predicted and target energies averaged over the later half of the steps.',
  [I, CF], 'for all nodal velocity values and mode energies, node coordinates of the transfer, and snapshots; mesh sizes, orders and rollouts within bounds',
  'There are no tests for the diagnostics; a spectrum that mixes modes looks plausible.',
  ['swirl_fem/niles/train.py'],
  [('energy and spectrum', 'niles/train.py: get_tke, get_energy_spectrum'), ('transfer', 'niles/train.py: transfer_perm'), ('spectral error', 'niles/train.py: compute_mse_loss')])
p('C35', 'The training loop performs, evaluates and saves every step exactly once',
  'A training run that starts from the checkpoint found in its directory, or from scratch, takes exactly the remaining steps up to the requested total: each step continues from the state of the one before with the next training batch, whose rows all reach one device each, with keys that differ between devices and from those of evaluation. After exactly the steps that complete an evaluation period the current state is evaluated on the requested number of next evaluation batches, and after those that complete a checkpoint period, and the last one, the current state is saved once under its step. Training and evaluation reports carry the step and the means since the last report. Numbers of steps asked for as (fractions of) epochs follow from the number of training windows per global batch, an evaluation of -1 steps covers the validation windows, and the base learning rate scales with the batch. A run that crashes at any step and is started again resumes from the last checkpoint, loses less than a checkpoint period, and ends in a state with every step taken once.',
  [I, CF, H, 'crash points'], 'for all totals, starting steps, periods of evaluation, checkpoints and reports, sizes of the data sets and batches, and one crash at any step; runs of at most five steps',
  'No test runs the training loop; an off-by-one in a schedule, a stale state or a lost checkpoint leaves the loss curve plausible.',
  ['swirl_fem/niles/train.py'],
  [('training loop', 'niles/train.py: train_and_evaluate'), ('checkpoints', 'niles/train.py: save_checkpoint, restore_checkpoint'), ('input iterators', 'niles/train.py: create_input_iter, prepare_tf_data')])
p('C36', 'Training optimises the configured model with clipped AdamW steps',
  'The model of a training run is built with every architectural option of its configuration, and its initial state is at step zero with the parameters the model itself initialises for the configured numbers of elements and channels. Applying a gradient moves every parameter by one AdamW step (moment decays 0.9 and 0.95, epsilon 1e-6) with the rate the schedule gives for the current step and the configured decoupled weight decay. If a clipping norm is configured, the gradient is first scaled down to it when its global norm over all parameters is larger, and otherwise left alone.',
  [I, CF, H], 'for all parameters, gradients, rates, weight decays, clipping norms and options; one or two steps on a few parameters',
  'There are no tests for the training code; a wrong optimiser still reduces the loss.',
  ['swirl_fem/niles/train.py'],
  [('optimiser and initial state', 'niles/train.py: create_train_state, initialized'), ('model options', 'niles/train.py: create_model')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
  for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
