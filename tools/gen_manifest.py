"""Writes /verif/MANIFEST.json from the checks that exist (run by hand)."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
JX = ('symbolic execution of the traced program (jaxpr) of the real function '
      'over polynomials/SMT terms, z3 verdict over all values in the box')
DSE = ('symbolic execution of the real host code on symbolic integers with '
       'solver-decided branches, z3 verdict on every path')
BOTH = ('symbolic execution of host code (solver-decided branches) and of its '
        'traced programs, z3 verdict on every path')
BASE = ('Bounded: holds for every value within the bounds listed in the '
        'evidence; floats are treated as reals (rounding is not modelled), XLA '
        'is trusted to implement the traced primitives. ')
T = {
 'C01': (JX, 'Evaluation points in [-2, 2], node counts and families as listed; tolerance 1e-6 absorbs rounded constants.'),
 'C02': (JX, 'Rule sizes as listed; tolerance for rounded node and weight constants.'),
 'C03': (JX, 'Orders 1-8 for symbolic polynomial histories and steps.'),
 'C04': (BOTH, 'Index arrays up to the listed sizes; padding slots carry a poison value that must not reach any result.'),
 'C05': (BOTH, 'All identification patterns of up to 6 local copies; devices executed in lockstep.'),
 'C06': (DSE, 'All link patterns of up to 3 links and 3 queried nodes.'),
 'C07': (BOTH, 'All partition assignments of small meshes, enumerated by solver-decided branches; symbolic fields.'),
 'C08': (BOTH, 'Mesh sizes as listed; symbolic bounds, labels.'),
 'C09': (BOTH, 'Pairs of elements in every relative orientation; symbolic vertex coordinates.'),
 'C10': (DSE, 'File reading is replaced by a stub with symbolic content.'),
 'C11': (DSE, 'The external partitioner is replaced by a stub that records its arguments and returns symbolic labels.'),
 'C12': (JX, 'Concrete curved and symbolic affine geometries.'),
 'C13': (JX, 'Small meshes, several forms.'),
 'C14': (JX, 'Small meshes; the linear solve is captured and its operator and right-hand side compared.'),
 'C15': (JX, 'One inductive step from any state and short complete runs.'),
 'C16': (JX, 'Small meshes.'),
 'C17': (JX, 'Inner solves are replaced by symbols constrained by the equations they solve.'),
 'C18': (JX, 'Device counts up to 17, lockstep execution, bit-vector integers and real/infinite floats.'),
 'C19': (BOTH, 'Small device counts and buffers.'),
 'C20': (JX, 'Signatures and conventions listed in the evidence.'),
 'C21': (JX, 'All operators and operand orders at the listed device counts.'),
 'C22': (JX, 'Polynomial drifts and diffusions; numbers of steps and segments as listed.'),
 'C23': (JX, 'Polynomial and generic drifts; numbers of steps as listed.'),
 'C24': (BOTH, 'Small meshes; symbolic facet membership, links and partition labels.'),
 'C25': (BOTH, 'Window parameters and lengths within the bounds listed; file access and tf.data modelled by their documentation, plus real runs on small files.'),
 'C26': (DSE, 'Element orders within the bounds listed.'),
 'C27': (JX, 'The cosine is a stub constrained to its range and monotonicity.'),
 'C30': ('symbolic execution of the traced program (jaxpr) of the real modules over polynomials and uninterpreted functions (congruence by interned terms, remaining differences to z3)', 'Models of up to 4 blocks, a few tokens and features; transcendental functions uninterpreted, random draws symbolic.'),
 'C31': (JX, 'The Stokes solver is replaced by arbitrary answers and its arguments are compared; long cycles use stand-ins for the mass and convection operators.'),
 'C32': (JX, 'Solver, operators and model are replaced by simple functions with symbolic parameters; spectra are the subject of C34.'),
 'C33': (JX, 'Small modules; numbers of steps and segments as listed.'),
 'C34': (BOTH, 'Fourier transforms expanded into exact sums with rounded roots of unity; the k-d tree replaced by its contract.'),
 'C35': (DSE, 'Runs of at most five steps; model, steps, devices and file library are recording stand-ins, compared with small runs of the real ones.'),
 'C36': ('symbolic execution of the traced program (jaxpr) of the real optimiser over rational functions and uninterpreted square roots, and of host code on symbolic options', 'One or two steps on up to four parameters; the model is a stand-in.'),
 'C29': (JX, 'The normal sampler is replaced by symbolic draws.'),
}
NA = {
 'C28': 'Asymptotic claim (limit of refinement) about rounded, iterated computations; no bounded symbolic query decides a limit, and each bounded instance is covered by the exactness properties C01, C02, C12-C17, C22.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
  if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick',
      thorough_cmd=f'bash check.sh {i} thorough',
      evidence_file=f'evidence/{i}.json', technique=tech,
      level='model_checking', level_note=BASE + note))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, \'.\'); import vlib.boot as b; b.setup_env(1); import z3, jax, swirl_fem"',
  checks=checks, not_applicable=na,
  notes='check.sh CXX [quick|thorough] [harness substring]; see DESIGN.md. No hooks are needed in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(checks), [x['property'] for x in na])
