"""C15: conjugate gradients keep their invariants and stop when they say."""
import itertools

import numpy as np

from vlib import boot, jsym, ops, sym
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
from vlib.harness import Rand, concretise, compare
from vlib.query import Inconclusive, solve
from vlib.sym import BX, b_and, b_not, b_or
from swirl_fem.linalg.cg import cg

# Small integers keep the float constants of the encoding exact.
MATS = {
    'diag': np.diag([1.0, 3.0]),
    'full2': np.array([[3.0, 1.0], [1.0, 2.0]]),
    'full3': np.array([[4.0, 1.0, 0.0], [1.0, 3.0, -1.0], [0.0, -1.0, 5.0]]),
    'diag3': np.diag([1.0, 2.0, 4.0]),
    'id3': np.eye(3),
}
PREC = {
    'none': None,
    'jacobi2': np.diag([0.5, 0.25]),
    'full2': np.array([[1.0, 0.5], [0.5, 2.0]]),
    'jacobi3': np.diag([0.25, 0.5, 1.0]),
    'full3': np.array([[2.0, 0.5, 0.0], [0.5, 1.0, 0.25], [0.0, 0.25, 1.0]]),
}
WEIGHTS = {2: np.array([2.0, 0.5]), 3: np.array([1.0, 0.5, 4.0])}


def mv(m, x):
  if not isinstance(x, np.ndarray) or x.dtype != object:
    return np.asarray(m, dtype=float) @ np.asarray(x)
  out = np.empty(len(x), dtype=object)
  for i in range(len(x)):
    s = 0
    for j in range(len(x)):
      if m[i][j]:
        s = ops.add(s, ops.mul(float(m[i][j]), x[j]))
    out[i] = s
  return out


def inner(w, a, b):
  s = 0
  for wi, x, y in zip(w, a, b):
    s = ops.add(s, ops.mul(float(wi), ops.mul(x, y)))
  return s


def axpy(c, x, y):
  """y + c x."""
  out = np.empty(len(x), dtype=object)
  for i in range(len(x)):
    out[i] = ops.add(y[i], ops.mul(c, x[i]))
  return out


class Oracle:
  """Textbook preconditioned conjugate gradients (Hestenes-Stiefel).

  Residuals are recomputed from the iterate (true residuals) and directions
  are made conjugate to the previous one by projection, so that the
  recurrences of the code are checked against the defining properties.
  """

  def __init__(self, a, m, w, b, x0):
    self.a, self.w = a, w
    self.m = (lambda r: mv(m, r)) if m is not None else (lambda r: r)
    self.b = b
    self.x = x0
    self.residual()
    self.p = self.z
    self.k = 0

  def residual(self):
    self.r = axpy(-1.0, mv(self.a, self.x), self.b)
    self.z = self.m(self.r)
    self.gamma = inner(self.w, self.r, self.z)

  def step(self):
    ap = mv(self.a, self.p)
    pap = inner(self.w, self.p, ap)
    # line search: the new residual is orthogonal to the direction
    alpha = ops.div(inner(self.w, self.p, self.r), pap)
    self.x = axpy(alpha, self.p, self.x)
    self.residual()
    # conjugate to the previous direction
    beta = ops.neg(ops.div(inner(self.w, self.z, ap), pap))
    self.p = axpy(beta, self.p, self.z)
    self.k += 1


def matched(mat, prec, weighted):
  """Matrices for which operator and preconditioner are self-adjoint."""
  a = MATS[mat]
  n = len(a)
  w = WEIGHTS[n] if weighted else np.ones(n)
  # self-adjoint in the inner product w: W A symmetric
  a = a / w[:, None]
  m = PREC[prec]
  m = None if m is None else m / w[:, None]
  return n, a, m, w


def solver(a, m, w, weighted, tree, **kw):
  """Calls the real solver on vectors, or on a tree of leaves."""
  n = len(a)

  def split(v):
    return {'s': v[0], 't': (v[1:],)} if tree else v

  def join(t):
    return jnp.concatenate([t['s'][None], t['t'][0]]) if tree else t

  if weighted:
    ws = split(jnp.asarray(w))
    if tree:
      # the inner product of a leaf depends on its shape here
      dot = lambda x, y: jnp.sum(
          (ws['s'] if jnp.ndim(x) == 0 else ws['t'][0]) * x * y)
    else:
      dot = lambda x, y: jnp.sum(ws * x * y)
    kw = dict(kw, dot_fn=dot)
  if m is not None:
    kw = dict(kw, M=lambda v: split(jnp.asarray(m) @ join(v)))

  def f(b, x0=None, **k):
    if x0 is not None:
      k = dict(k, x0=split(x0))
    x, info = cg(lambda v: split(jnp.asarray(a) @ join(v)), split(b), **kw,
                 **k)
    return join(x), info['residual'], info['num_iterations']
  return f


def schedule(k, positive):
  """Drives the loop: symbolic conditions are taken, and remembered."""
  def decide(c):
    positive.append(c)
    return True
  return {'decide': decide, 'while_limit': k + 2}


def iterates(h, *, mat, prec, weighted, tree, k, guess, symb):
  """State and report after exactly k iterations, against the definition."""
  h.func('cg.cg', 'cg._vdot')
  h.bound('systems of 2 and 3 unknowns, 0-3 iterations, fixed self-adjoint '
          'operators, preconditioners and inner products, arrays and trees; '
          'symbolic right-hand sides and guesses in [-1, 1]; symbolic diagonal '
          'operators and preconditioners for 0-2 iterations')
  h.assume('real arithmetic; denominators of the iterates (multiples of '
           'residual norms) at least 1e-3')
  n, a, m, w = matched(mat, prec, weighted)
  f0 = solver(a, m, w, weighted, tree, tol=0.0, atol=0.0, maxiter=k)
  b = jsym.poly_vars('b', (n,))
  x0 = jsym.poly_vars('x', (n,))
  if symb == 'b':
    guess = False
  elif symb == 'x':          # fixed right-hand side, symbolic guess
    b = np.array([1.0, -0.5, 0.25][:n])
  elif symb == 'line':       # one-parameter families through generic data
    t = jsym.poly_vars('t', ())[()]
    b = np.array([ops.add(c, ops.mul(d, t)) for c, d in zip(
        [1.0, -0.5, 0.25], [0.5, 1.0, -0.75])][:n], dtype=object)
    x0 = np.array([ops.add(c, ops.mul(d, t)) for c, d in zip(
        [0.25, 0.5, -1.0], [-0.5, 0.25, 0.5])][:n], dtype=object)
  args = (b, x0) if guess else (b,)

  def oracle(b, x0=None):
    o = Oracle(a, m, w, b, np.zeros(n) if x0 is None else x0)
    for _ in range(k):
      o.step()
    return o.x, o.gamma, np.asarray(k)

  def run(env):
    conc = [concretise(v, env) for v in args]
    got = [np.asarray(g) for g in f0(*[jnp.asarray(c) for c in conc])]
    want = [np.asarray(v, dtype=np.float64) for v in oracle(*conc)]
    return compare(got, want, 1e-6)

  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, None, 1.0)))
  seen = []
  sym.set_exact(symb == 'line')
  try:
    if symb == 'line':
      args = tuple(exact(v) for v in args)
    got = jsym.call(f0, *args, hooks=schedule(k, seen))
    h.close(list(got), list(oracle(*args)), run, tol=1e-7,
            label=f'{mat}/{prec} after {k} iterations')
  finally:
    sym.set_exact(False)


def exact(v):
  """Rational coefficients, so that common factors cancel."""
  from fractions import Fraction
  if not (isinstance(v, np.ndarray) and v.dtype == object):
    return v
  out = np.empty(v.shape, dtype=object)
  for i in np.ndindex(*v.shape):
    e = v[i]
    out[i] = sym.Poly({m: Fraction(c) for m, c in e.t.items()}) if isinstance(
        e, sym.Poly) else e
  return out


def symbolic_operator(h, *, k, weighted, prec):
  """Symbolic diagonal operator and preconditioner."""
  h.func('cg.cg')
  n = 2
  w = WEIGHTS[n] if weighted else np.ones(n)
  d, b, q, x0 = (jsym.poly_vars(c, (n,)) for c in 'dbqx')

  def f(d, b, q, x0):
    kw = {}
    if weighted:
      kw['dot_fn'] = lambda x, y: jnp.sum(jnp.asarray(w) * x * y)
    if prec:
      kw['M'] = lambda v: q * v
    x, info = cg(lambda v: d * v, b, x0=x0, tol=0.0, maxiter=k, **kw)
    return x, info['residual'], info['num_iterations']

  def oracle(d, b, q, x0):
    diag = lambda v, x: np.array([ops.mul(s, t) for s, t in zip(v, x)],
                                 dtype=object)
    o = Oracle.__new__(Oracle)
    o.w, o.b, o.x = w, b, x0
    o.m = (lambda r: diag(q, r)) if prec else (lambda r: r)
    o.k = 0

    def residual():
      o.r = axpy(-1.0, diag(d, o.x), o.b)
      o.z = o.m(o.r)
      o.gamma = inner(w, o.r, o.z)
    residual()
    o.p = o.z
    for _ in range(k):
      ap = diag(d, o.p)
      pap = inner(w, o.p, ap)
      alpha = ops.div(o.gamma, pap)
      o.x = axpy(alpha, o.p, o.x)
      g = o.gamma
      residual()
      o.p = axpy(ops.div(o.gamma, g), o.p, o.z)
    return o.x, o.gamma, np.asarray(k)

  def run(env):
    conc = [concretise(v, env) for v in (d, b, q, x0)]
    conc[0], conc[2] = np.abs(conc[0]) + 0.5, np.abs(conc[2]) + 0.5
    got = [np.asarray(g) for g in f(*[jnp.asarray(c) for c in conc])]
    want = [np.asarray(v, dtype=np.float64) for v in oracle(*conc)]
    return compare(got, want, 1e-6)
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, None, 1.0)))
  box = {'d': (0.5, 1.5), 'q': (0.5, 1.5)}
  got = jsym.call(f, d, b, q, x0, hooks=schedule(k, []))
  h.close(list(got), list(oracle(d, b, q, x0)), run, tol=1e-7, box=box,
          label=f'symbolic operator after {k} iterations')


def stopping(h, *, mat, prec, weighted, guess, limit):
  """The loop runs exactly while the stated condition holds."""
  h.func('cg.cg')
  h.bound('stopping rule: symbolic tolerances in [0, 1], right-hand side '
          'and guess, iteration limits 0-3 and symbolic, first three tests of '
          'the rule')
  n, a, m, w = matched(mat, prec, weighted)
  b = jsym.poly_vars('b', (n,))
  x0 = jsym.poly_vars('x', (n,)) if guess else None
  tol = jsym.poly_vars('tol', ())
  atol = jsym.poly_vars('atol', ())
  box = {'tol': (0.0, 1.0), 'atol': (0.0, 1.0)}
  assume = [sym.as_real(tol[()]) >= 0, sym.as_real(tol[()]) <= 1,
            sym.as_real(atol[()]) >= 0, sym.as_real(atol[()]) <= 1]
  for v in list(b) + (list(x0) if guess else []):
    assume += [sym.as_real(v) >= -1, sym.as_real(v) <= 1]
  h.witness(assume)

  def f(b, tol, atol, *x0):
    kw = dict(tol=tol, atol=atol)
    if limit is not None:
      kw['maxiter'] = limit
    return solver(a, m, w, weighted, False)(b, *x0, **kw)

  cap = limit if limit is not None else 10 * n

  def run(env):
    conc = [concretise(v, env) for v in ((b, tol, atol) + (
        (x0,) if guess else ()))]
    conc[1], conc[2] = np.abs(conc[1]), np.abs(conc[2])
    x, g, k = [np.asarray(v) for v in f(*[jnp.asarray(c) for c in conc])]
    o = Oracle(a, m, w, conc[0], conc[3] if guess else np.zeros(n))
    thr = max(conc[1] ** 2 * inner(w, conc[0], conc[0]), conc[2] ** 2)
    while o.k < cap and o.gamma > thr:
      if abs(o.gamma - thr) < 1e-9 * max(1, thr) or o.gamma < 1e-14:
        return None             # rounding decides; nothing to compare
      o.step()
    if abs(o.gamma - thr) < 1e-9 * max(1, thr) and o.k < cap:
      return None
    return compare([x, g, k], [np.asarray(o.x, dtype=float),
                               np.asarray(o.gamma), np.asarray(o.k)], 1e-6)
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(
      Rand(h.nprng, {'tol': (0.0, 0.3), 'atol': (0.0, 0.3)}, 1.0)))

  sargs = (b, tol, atol) + ((x0,) if guess else ())
  thr = ops.maximum(
      ops.mul(ops.mul(tol[()], tol[()]), inner(w, b, b)),
      ops.mul(atol[()], atol[()]))
  rounds = 3 if mat.startswith('diag') and not guess else 2
  for stop in range(min(rounds, cap + 1)):
    # the run that leaves the loop at its test number `stop`
    conds = []

    def decide(c):
      conds.append(c)
      return len(conds) <= stop
    o = Oracle(a, m, w, b, x0 if guess else np.zeros(n))
    want = []
    for i in range(stop + 1):
      above = ops.gt(o.gamma, thr)
      want.append(b_and(above, i < cap))
      if i < stop:
        o.step()
    x, g, k = jsym.call(f, *sargs, hooks={'decide': decide, 'while_limit': 5})
    done = np.asarray(k)[()]
    expect = min(stop, cap)
    if int(done) != expect:
      h._replay(run, {}, f'{done} iterations reported instead of {expect}')
    for i, c in enumerate(conds[:stop + 1]):
      # both agree, given the values and denominators away from zero
      w_ = want[i]
      if isinstance(c, bool) and isinstance(w_, bool):
        if c != w_:
          h._replay(run, {}, f'loop test {i}')
        continue
      diff = b_or(b_and(c, b_not(w_)), b_and(b_not(c), w_))
      mdl = solve(assume + [diff] + nonzero(o)) if not (
          isinstance(diff, bool)) else ({} if diff else None)
      sym.STATS.obligations += 1
      if mdl is not None:
        env = {} if isinstance(mdl, dict) else read(mdl, sargs)
        hunt(h, run, env, f'loop test {i}')
    h.close([x, g], [o.x, o.gamma], run, tol=1e-7, box=box,
            label=f'{mat} leaves at test {stop}')
  h.sample(label='stopping rule', limit=str(limit), tests=rounds)


def hunt(h, run, env, what):
  """Replays, then looks near the threshold for a run that shows it."""
  for k in range(400):
    e = Rand(h.nprng, {'tol': (0.0, 1.0), 'atol': (0.0, 1.0)}, 1.0)
    if k < 200:
      for n, v in env.items():
        e[n] = v if k == 0 else v + float(h.nprng.normal()) * 10.0 ** -(
            1 + k % 6)
    elif k % 4 == 0:
      e['tol[]'] = 0.0
    elif k % 4 == 1:
      e['atol[]'] = 0.0
    d = run(e)
    if d is not None:
      h.fail(f'{what}: {d}', dict(e))
  h._replay(run, env, what)


def nonzero(o):
  out = []
  for e in list(o.x) + [o.gamma]:
    if isinstance(e, sym.Rat):
      d = sym.poly_z3(e.d)
      out.append(d * d >= sym.rat(1e-6))
  return out


def read(m, args):
  from vlib.query import z3_number
  env = {}
  for a in args:
    for e in np.asarray(a, dtype=object).flat:
      for i in e.vars():
        env[sym.Poly.names[i]] = float(z3_number(
            m.eval(sym.real_var(i), model_completion=True)))
  return env


def identify(carry, known):
  """Positions of the known initial values among the loop's variables."""
  pos = {}
  for name, v in known.items():
    hits = []
    for i, c in enumerate(carry):
      c = c[0]
      c = c if jsym.is_sym(c) else jsym.to_obj(c)
      v_ = np.asarray(v, dtype=object)
      if c.shape == v_.shape and all(
          ops.sub(x, y) == 0 for x, y in zip(c.flat, v_.flat)):
        hits.append(i)
    if len(hits) != 1:
      return None
    pos[name] = hits[0]
  return pos


def long_run(rng, ks, preconditioned, weighted):
  """States after k turns of a slowly converging run satisfy the definition."""
  nn = 160
  q, _ = np.linalg.qr(rng.normal(size=(nn, nn)))
  big = (q * np.geomspace(1, 3e3, nn)) @ q.T
  w = np.linspace(1, 2, nn) if weighted else np.ones(nn)
  big = (big + big.T) / 2 / w[:, None]
  m = np.linspace(1, 1.5, nn) if preconditioned else np.ones(nn)
  b, x0 = rng.uniform(-1, 1, nn), rng.uniform(-1, 1, nn)
  kw = dict(tol=0.0, atol=0.0)
  if preconditioned:
    kw['M'] = lambda r: jnp.asarray(m) * r
  if weighted:
    kw['dot_fn'] = lambda x, y: jnp.sum(jnp.asarray(w) * x * y)
  f = jax.jit(lambda k: cg(lambda v: jnp.asarray(big) @ v, jnp.asarray(b),
                           x0=jnp.asarray(x0), maxiter=k, **kw))
  prev = None
  for k in ks:
    x, info = f(k)
    x, g = np.asarray(x), float(info['residual'])
    if int(info['num_iterations']) != k:
      return f'{int(info["num_iterations"])} iterations instead of {k}'
    r = b - big @ x
    true = float(np.sum(w * r * m * r))
    if true > 1e-9 and abs(g - true) > 1e-4 * true:
      return f'after {k} turns: residual {g!r} instead of {true!r}'
    step = None
    if prev is not None and prev[0] == k - 1:
      step = x - prev[1]
      if prev[2] is not None and true > 1e-7:
        s, t = prev[2], step
        c = np.sum(w * s * (big @ t))
        n = np.sqrt(np.sum(w * s * (big @ s)) * np.sum(w * t * (big @ t)))
        if n > 0 and abs(c) > 1e-4 * n:
          return (f'turn {k}: direction not conjugate to the previous one, '
                  f'cosine {c / n!r}')
      c = np.sum(w * r * step)
      n = np.sqrt(np.sum(w * r * r) * np.sum(w * step * step))
      if true > 1e-7 and n > 0 and abs(c) > 1e-4 * n:
        return f'turn {k}: the step length is not optimal, cosine {c / n!r}'
    prev = (k, x, step)
  return None


def induction(h, *, mat, prec, weighted):
  """One turn of the loop from an arbitrary state."""
  h.func('cg.cg (loop condition and body)')
  h.bound('one turn of the loop from an arbitrary state: symbolic iterate, '
          'residual, direction, residual norm and iteration count')
  n, a, m, w = matched(mat, prec, weighted)
  b = jsym.poly_vars('b', (n,))
  x0 = jsym.poly_vars('x', (n,))
  tol, atol = jsym.poly_vars('tol', ()), jsym.poly_vars('atol', ())
  lim = jsym.obj_array((), lambda i: sym.z3.Int('maxiter'))
  st = {'x': jsym.poly_vars('X', (n,)), 'r': jsym.poly_vars('R', (n,)),
        'p': jsym.poly_vars('P', (n,))}
  g0, k0 = sym.Poly.var('G'), sym.z3.Int('K')
  result = {}

  def hook(it, e, cc, bc, carry):
    cj, bj = e.params['cond_jaxpr'], e.params['body_jaxpr']
    o = Oracle(a, m, w, b, x0)
    pos = identify(carry, {'x': x0, 'r': o.r, 'p': o.z, 'g': o.gamma})
    ints = [i for i, c in enumerate(carry) if not jsym.is_sym(c[0])
            and np.asarray(c[0]).shape == ()]
    if pos is None or len(ints) != 1 or len(carry) != 5:
      result['layout'] = False
      return carry
    pos['k'] = ints[0]
    result['layout'] = True
    new = list(carry)
    for name in 'xrp':
      new[pos[name]] = [st[name]]
    new[pos['g']] = [jsym.filled((), g0)]
    new[pos['k']] = [jsym.filled((), k0)]
    consts = lambda jx: [[jsym.np_or_jax(c)] for c in jx.consts]
    result['cond'] = np.asarray(it.eval(cj.jaxpr, consts(cj), cc + new)[0][0],
                                dtype=object)[()]
    out = it.eval(bj.jaxpr, consts(bj), bc + new)
    result['body'] = {name: out[i][0] for name, i in pos.items()}
    return carry

  def f(b, x0, tol, atol, lim):
    return solver(a, m, w, weighted, False)(b, x0, tol=tol, atol=atol,
                                            maxiter=lim)
  try:
    jsym.call(f, b, x0, tol, atol, jsym.Leaf(lim, np.int64),
              hooks={'while': hook})
  except sym.Unsupported:
    if not result:
      raise
  if not result.get('layout'):
    # another arrangement of the loop: the complete runs above decide
    h.sample(label='induction', note='loop state not recognised, skipped')
    solve([False])
    return
  thr = ops.maximum(ops.mul(ops.mul(tol[()], tol[()]), inner(w, b, b)),
                    ops.mul(atol[()], atol[()]))
  want = b_and(ops.gt(g0, thr), ops.lt(k0, lim[()]))
  c = result['cond']
  diff = b_or(b_and(c, b_not(want)), b_and(b_not(c), want))
  sym.STATS.obligations += 1

  def run(env):
    """Complete runs of the code: reports and conjugacy of its steps."""
    model = env.get('__model__') if isinstance(env, dict) else None
    K = model.eval(k0, model_completion=True).as_long() if model else 0
    ks = list(range(0, 140)) + (
        list(range(max(K - 2, 0), K + 4)) if 140 < K < 3000 else [])
    return long_run(h.nprng, ks, prec is not None, weighted)

  def stops(env):
    for k in (0, 1, 2, 3, 5, 9, 17, 40):
      for tol in (0.0, 0.3):
        nn = 60
        q, _ = np.linalg.qr(h.nprng.normal(size=(nn, nn)))
        big = (q * np.linspace(1, 50, nn)) @ q.T
        big = (big + big.T) / 2
        bb, xx = h.nprng.uniform(-1, 1, nn), h.nprng.uniform(-1, 1, nn)
        x, info = cg(lambda v: jnp.asarray(big) @ v, jnp.asarray(bb),
                     x0=jnp.asarray(xx), maxiter=k, tol=tol)
        o = Oracle(big, None, np.ones(nn), bb, xx)
        thr = tol ** 2 * float(bb @ bb)
        while o.k < k and o.gamma > thr:
          o.x = np.asarray(o.x, dtype=float)
          o.step()
          o.p = np.asarray(o.p, dtype=float)
        d = compare([np.asarray(x), np.asarray(info['residual']),
                     np.asarray(info['num_iterations'])],
                    [np.asarray(o.x, dtype=float),
                     np.asarray(o.gamma, dtype=float), np.asarray(o.k)], 1e-5)
        if d:
          return f'limit {k}, tolerance {tol}: {d}'
    return None

  if not isinstance(diff, bool) or diff:
    mdl = solve([diff]) if not isinstance(diff, bool) else {}
    if mdl is not None:
      h._replay(stops, {}, 'loop condition')
  # the body, from any state
  X, R, P = st['x'], st['r'], st['p']
  ap = mv(a, P)
  alpha = ops.div(g0, inner(w, P, ap))
  x1, r1 = axpy(alpha, P, X), axpy(ops.neg(alpha), ap, R)
  z1 = mv(m, r1) if m is not None else r1
  g1 = inner(w, r1, z1)
  p1 = axpy(ops.div(g1, g0), P, z1)
  body = result['body']
  h.close([body['x'], body['r'], body['g'], body['p']], [x1, r1, g1, p1], run,
          tol=1e-7, label=f'{mat} one turn')
  k1 = np.asarray(body['k'], dtype=object)[()]
  d = solve([sym.z3.Not(k1 == k0 + 1)])
  if d is not None:
    h._replay(run, {}, 'iteration count')


def exact_zero(h):
  """A residual of exactly zero ends the iteration, also at tolerance zero."""
  h.func('cg.cg')
  h.bound('concrete systems whose residual is exactly zero at some iterate')

  def one(diag, b, x0, want, turns, **kw):
    d = jnp.asarray(diag)
    x, info = cg(lambda v: d * v, jnp.asarray(b),
                 x0=None if x0 is None else jnp.asarray(x0), tol=0.0, **kw)
    return compare(
        [np.asarray(x), np.asarray(info['residual']),
         np.asarray(info['num_iterations'])],
        [np.asarray(want), np.asarray(0.0), np.asarray(turns)], 1e-12)
  z = [0.0, 0.0, 0.0]
  for kw in ({}, dict(atol=0.0), dict(M=lambda v: 2 * v),
             dict(dot_fn=lambda a, b: 3 * jnp.vdot(a, b)), dict(maxiter=5)):
    h.smoke(lambda kw=kw: one([1., 2., 4.], z, None, z, 0, **kw))
    h.smoke(lambda kw=kw: one([1., 2., 4.], z, z, z, 0, **kw))
    h.smoke(lambda kw=kw: one([1., 2., 4.], [1., 4., -8.], [1., 2., -2.],
                              [1., 2., -2.], 0, **kw))
    h.smoke(lambda kw=kw: one([2., 2., 2.], [2., 4., -8.], None,
                              [1., 2., -4.], 1, **kw))
  solve([False])


def defaults(h, *, size):
  """Default limit, guess and preconditioner."""
  h.func('cg.cg')
  h.bound('default iteration limit of systems of 5 to 604 unknowns')
  got = []

  def hook(it, e, cc, bc, carry):
    cj = e.params['cond_jaxpr']
    new = []
    for c in carry:
      c = c[0]
      if not jsym.is_sym(c) and np.asarray(c).shape == () and np.asarray(
          c).dtype.kind in 'iu':
        new.append([jsym.filled((), sym.z3.Int('K'))])
      elif np.shape(c) == ():
        new.append([jsym.filled((), sym.Poly.var('G'))])
      else:
        new.append([c])
    got.append(np.asarray(it.eval(
        cj.jaxpr, [[jsym.np_or_jax(x)] for x in cj.consts], cc + new)[0][0],
                          dtype=object)[()])
    return carry

  b = jsym.poly_vars('b', (size,))
  c = jsym.poly_vars('c', (2, 2))

  def f(b, c):
    x, info = cg(lambda t: {'b': 2 * t['b'], 'c': 3 * t['c']},
                 {'b': b, 'c': c}, atol=0.0, tol=0.0)
    return x['b'], x['c'], info['num_iterations']

  def run(env):
    # an inner product for which the iteration never meets the tolerance
    x, info = cg(lambda t: {'b': 0 * t['b'], 'c': 0 * t['c']},
                 {'b': jnp.ones(size), 'c': jnp.ones((2, 2))},
                 tol=0.0, atol=0.0, dot_fn=lambda x, y: jnp.ones(()))
    n = int(info['num_iterations'])
    return None if n == cap else f'{n} iterations, the default limit is {cap}'
  cap = 10 * (size + 4)
  h.smoke(lambda: run({}))

  x, y, k = jsym.call(f, b, c, hooks={'while': hook})
  h.close([x, y, k], [np.zeros(size), np.zeros((2, 2)), np.asarray(0)],
          lambda env: 'the default guess is not zero', label='zero guess')
  G, K = sym.real_var(sym.Poly.var('G').vars().pop()), sym.z3.Int('K')
  for cond in got:
    want = sym.z3.And(G > 0, K < cap)
    if solve([sym.to_z3(cond) != want]) is not None:
      h._replay(run, {}, 'default iteration limit')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for mat, precs in [('diag', ('none', 'jacobi2')),
                     ('full2', ('none', 'jacobi2', 'full2')),
                     ('full3', ('none', 'jacobi3', 'full3')),
                     ('diag3', ('none', 'full3')), ('id3', ('jacobi3',))]:
    for prec in precs:
      for weighted in (False, True):
        n = len(MATS[mat])
        ind = dict(mat=mat, prec=prec, weighted=weighted)
        out.append((f'induction {mat} {prec} weighted={weighted}', induction,
                    ind))
        for tree in (False, True):
          for k in (0, 1, 2, 3):
            for symb, guess in [('b', False), ('x', True), ('both', True),
                                ('line', True)]:
              if tree and (symb != 'line' or k > 2):
                continue
              if (mat, prec, weighted, k) == ('diag3', 'none', True, 3):
                continue    # two eigenvalues coincide: done after two
              if k > n or k >= n and symb != 'line':
                continue
              if k == 2 and symb in ('x', 'both', 'b') and not (
                  th and symb != 'both'):
                continue
              out.append((f'iterates {mat} {prec} weighted={weighted} '
                          f'tree={tree} k={k} {symb}', iterates,
                          dict(mat=mat, prec=prec, weighted=weighted,
                               tree=tree, k=k, guess=guess, symb=symb)))
  for k in (0, 1) + ((2,) if th else ()):
    for weighted in (False, True):
      for prec in (False, True):
        if k == 2 and (weighted or prec):
          continue
        out.append((f'symbolic operator k={k} weighted={weighted} '
                    f'preconditioner={prec}', symbolic_operator,
                    dict(k=k, weighted=weighted, prec=prec)))
  for mat, prec, weighted, guess in [
      ('diag', 'none', False, False), ('diag', 'jacobi2', False, False),
      ('full2', 'none', True, False), ('full2', 'full2', False, False),
      ('diag', 'none', False, True), ('diag', 'jacobi2', True, True)]:
    for limit in (None, 0, 1, 2):
      out.append((f'stopping {mat} {prec} weighted={weighted} guess={guess} '
                  f'limit={limit}', stopping,
                  dict(mat=mat, prec=prec, weighted=weighted, guess=guess,
                       limit=limit)))
  for size in (1, 3, 60, 600):
    out.append((f'defaults {size}', defaults, dict(size=size)))
  out.append(('exact zero', exact_zero, {}))
  return out
