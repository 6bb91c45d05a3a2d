"""C35: the training loop performs, evaluates and saves every step once."""
import inspect
import itertools
import os
import shutil
import tempfile

import numpy as np
import z3

from vlib import boot, dse
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
import ml_collections
import optax
from flax import jax_utils
from flax.training import train_state
from checks.c25 import lazy_range, patched
from checks.c31 import Shim
from vlib.dse import SymInt, mk, val, value
from vlib.harness import Unreproduced
from vlib.query import solve
from vlib.sym import STATS, Unsupported
from swirl_fem.niles import train
from swirl_fem.niles.config import niles
import tensorflow_datasets as tfds

TRAIN, VALID = tfds.Split.TRAIN, tfds.Split.VALIDATION
SPEC = {n: inspect.signature(getattr(train, n)) for n in (
    'create_train_state', 'create_learning_rate_fn', 'create_kl_penalty_fn',
    'create_updown_learning_rate_fn', 'train_step', 'eval_step',
    'create_model', 'transfer_perm')}
SHARDS = {TRAIN: len(train.input_pipeline._TRAIN_SHARDS),
          VALID: len(train.input_pipeline._VALID_SHARDS)}
SPLITS = inspect.signature(train.input_pipeline.create_split)


def bind(sig, a, k):
  b = sig.bind(*a, **k)
  b.apply_defaults()
  return b.arguments


class Crash(Exception):
  pass


class Config(dict):
  """A configuration; accepts symbolic numbers."""

  def __getattr__(self, k):
    try:
      return self[k]
    except KeyError:
      raise AttributeError(k) from None


class Ratio:
  """A symbolic fraction with a constant denominator."""

  def __init__(self, num, den):
    self.num, self.den = num, den

  def __mul__(self, o):
    return Ratio(val(o) * self.num, self.den)
  __rmul__ = __mul__

  def __add__(self, o):
    return Ratio(self.num + val(o) * self.den, self.den)
  __radd__ = __add__

  def floor(self):
    return mk(self.num / self.den)


class Period(SymInt):
  """A symbolic number of steps; rates per second are left open."""
  __slots__ = ()

  def __truediv__(self, o):
    return float('nan')


class Rate:
  """The learning rate times whatever the loop makes of it."""

  def __init__(self, num, den=1.):
    self.num, self.den = num, den

  def __mul__(self, o):
    v = val(o)
    if v is None:
      raise Unsupported('learning rate')
    return Rate(self.num * v, self.den)
  __rmul__ = __mul__

  def __truediv__(self, o):
    return Rate(self.num, self.den * float(o))


def whole(x=0, *a):
  if isinstance(x, Ratio):
    return x.floor()
  if isinstance(x, SymInt):
    return x
  return int(x, *a)


class State:
  """Step counter and the batches it was trained on."""

  def __init__(self, step, seen=()):
    self.step, self.seen = step, seen


class Each:
  """One value per device."""

  def __init__(self, x, n):
    self.x, self.n = x, n

  def __getitem__(self, i):
    if i >= self.n:
      raise IndexError(i)
    return self.x


class Seen:
  """A leaf holding the sequence of batches."""

  def __init__(self, seq):
    self.seq = seq


jax.tree_util.register_pytree_node(
    State, lambda s: ((s.step, s.seen), None), lambda _, c: State(*c))


class Tensor:
  """A batch of the input pipeline: rows of (batch number, row)."""

  def __init__(self, kind, i, rows):
    self.a = np.array([[kind, i, r] for r in range(rows)], np.float64)

  def _numpy(self):
    return self.a

  numpy = _numpy

  @property
  def shape(self):
    return self.a.shape


class World:
  """Everything around the loop: data, devices, files, clocks."""

  def __init__(self, examples, *, devices=2, processes=1, crash=None,
               rows=24):
    # snapshots in every shard
    self.examples, self.devices, self.processes = examples, devices, processes
    self.crash, self.rows = crash, rows
    self.saved = []           # every state written, in order
    self.start = None         # what a restart finds
    self.reset()

  def reset(self):
    self.trained, self.evals, self.writes, self.log = [], [], [], []
    self.args = {}
    self.seconds = 0.
    self.first = None

  # stand-ins ------------------------------------------------------------------
  def split(self, *a, **k):
    k = bind(SPLITS, a, k)
    kind = 'train' if k['train'] else 'eval'
    self.args[kind] = k
    rows = self.rows

    def gen():
      for i in itertools.count():
        yield dict(t=Tensor(kind == 'train', i, rows))
    return gen()

  def named(self, name):
    def f(*a, **k):
      self.args[name] = bind(SPEC[name], a, k)
      return name
    return f

  def make_state(self, *a, **k):
    self.args['create_train_state'] = bind(SPEC['create_train_state'], a, k)
    return State(0, Seen(()))

  def restore(self, where, target, *a, **k):
    self.args['restore'] = (where, target)
    self.first = self.start if self.start is not None else target
    return self.first

  def save(self, where, state, step, *a, **k):
    self.saved.append((where, state, step))
    self.start = state

  def batch(self, b):
    """The number of a batch; every row on exactly one device."""
    t = np.asarray(b['t'])
    if t.ndim != 3 or t.shape[0] != self.devices:
      raise Wrong(f'batch of shape {t.shape} for {self.devices} devices')
    rows = t.reshape(-1, 3)
    if sorted(rows[:, 2]) != list(range(self.rows)):
      raise Wrong(f'rows {rows[:, 2]} of a batch of {self.rows}')
    return 'train' if rows[0, 0] else 'eval', int(rows[0, 1])

  def step(self, *a, **k):
    k = bind(SPEC['train_step'], a, k)
    if self.crash is not None and self.crash == len(self.trained):
      raise Crash()
    if len(self.trained) >= 30:
      raise Wrong('more than 30 steps')
    s = k['state']
    self.trained.append((s, self.batch(k['batch']), k))
    self.seconds += 1.
    new = State(Each(s.step[0] + 1, self.devices),
                Each(Seen(s.seen[0].seq + (self.trained[-1][1],)),
                     self.devices))
    return new, self.metrics(len(self.trained))

  def evaluate(self, *a, **k):
    k = bind(SPEC['eval_step'], a, k)
    if len(self.evals) >= 100:
      raise Wrong('more than 100 evaluation batches')
    self.evals.append((len(self.trained), k['state'], self.batch(k['batch']),
                       k))
    return self.metrics(100 + len(self.evals))

  def metrics(self, i):
    return dict(loss=np.full(self.devices, 1. * i * i),
                kl_q0=np.full(self.devices, 3. * i))

  def write(self, step, scalars):
    self.writes.append((len(self.trained), step,
                        {k: float(v) for k, v in scalars.items()}))

  def clock(self):
    self.seconds += 0.25
    return self.seconds

  # one run --------------------------------------------------------------------
  def run(self, config, workdir='/nowhere'):
    self.reset()
    w = self
    n = self.devices

    class Writer:
      def __getattr__(self, name):
        return lambda *a, **k: None

      def write_scalars(self, step, scalars):
        w.write(step, scalars)

    tree = jax.tree_util
    quiet = Shim(train.logging, info=lambda *a, **k: None)
    fake_jax = Shim(
        jax, pmap=lambda f, *a, **k: f, device_count=lambda: n * w.processes,
        local_device_count=lambda: n, process_count=lambda: w.processes,
        process_index=lambda: 0, device_get=lambda x: x)
    utils = Shim(
        train.jax_utils, prefetch_to_device=lambda it, *a, **k: it,
        replicate=lambda t, *a: tree.tree_map(lambda x: Each(x, n), t),
        unreplicate=lambda t: tree.tree_map(lambda x: x[0], t))
    total = {k: n * SHARDS[k] for k, n in self.examples.items()}
    pipe = Shim(train.input_pipeline, create_split=self.split,
                NUM_SPLIT_EXAMPLES=total)
    sem = Shim(train.navier_stokes, StokesSEM=Shim(
        train.navier_stokes.StokesSEM,
        create=lambda *a, **k: ('sem', a, k)))
    over = [
        (train.input_pipeline, 'NUM_SPLIT_EXAMPLES', total),
        (train, 'jax', fake_jax), (train, 'jax_utils', utils),
        (train, 'input_pipeline', pipe), (train, 'navier_stokes', sem),
        (train, 'logging', quiet),
        (train, 'time', Shim(train.time, time=self.clock,
                             perf_counter=self.clock, monotonic=self.clock)),
        (train, 'metric_writers', Shim(
            train.metric_writers,
            create_default_writer=lambda *a, **k: Writer())),
        (train, 'periodic_actions', Shim(
            train.periodic_actions,
            Profile=lambda *a, **k: (lambda *b, **c: None))),
        (train, 'checkpoints', Shim(
            train.checkpoints, restore_checkpoint=self.restore,
            save_checkpoint=self.save,
            save_checkpoint_multiprocess=self.save)),
        (train, 'create_train_state', self.make_state),
        (train, 'create_learning_rate_fn',
         self.named('create_learning_rate_fn')),
        (train, 'create_updown_learning_rate_fn',
         self.named('create_updown_learning_rate_fn')),
        (train, 'create_kl_penalty_fn', self.named('create_kl_penalty_fn')),
        (train, 'create_model', self.named('create_model')),
        (train, 'transfer_perm', self.named('transfer_perm')),
        (train, 'refine_premesh', lambda *a, **k: _Mesh()),
        (train, 'premesh_commons', Shim(
            train.premesh_commons, unit_cube_mesh=lambda *a, **k: _Mesh())),
        (train, 'train_step', self.step), (train, 'eval_step', self.evaluate)]
    train.int, train.range = whole, lazy_range
    try:
      with patched(*over):
        return train.train_and_evaluate(config, workdir)
    except (AttributeError, KeyError, TypeError, NotImplementedError) as e:
      # the stand-ins do not fit; `real` runs the loop without them
      raise Unsupported(f'stand-ins: {e!r}') from e
    finally:
      del train.int, train.range


class Wrong(Exception):
  """The loop did something no valuation of the symbols excuses."""


class _Mesh:
  def finalize(self, *a, **k):
    return self


def config(**kw):
  base = dict(
      batch_size=24, train_window_size=5, train_window_stride=2,
      eval_window_size=7, eval_window_stride=3, debug=False,
      num_train_steps=-1, num_epochs=1, steps_per_eval=2,
      checkpoint_epochs=10**9, eval_every_epochs=10**9, learning_rate=0.5,
      model_name='m', model=None, order=2, element_grid_size=2,
      log_every_steps=None, num_elements=4, num_channels=8, num_nodes=25,
      weight_decay=0., grad_clip_norm=None)
  base.update(kw)
  return Config(base)


# What should have happened ----------------------------------------------------

def claims(w, conf, last, *, N, E, C, L, S, P, crashed=False):
  """(what, condition) pairs; conditions are z3 or python booleans."""
  o = w.first.step
  n = len(w.trained)
  v = lambda x: val(x) if val(x) is not None else x
  out = []

  def same(what, a, b):
    a, b = val(a), val(b)
    out.append((what, a == b if a is not None and b is not None else False))

  def say(what, c):
    out.append((what, bool(c)))
  # the steps
  if not crashed:
    out.append((f'{n} steps taken', z3.If(v(N) > v(o), v(N) - v(o), 0) == n))
  seen = w.first.seen.seq
  for i, (s, b, k) in enumerate(w.trained):
    say(f'state before step {i}', s.seen[0].seq == seen)
    same(f'step counter before step {i}', s.step[0], o + i)
    say(f'training batch {i}', b == ('train', i))
    seen = seen + (b,)
    say(f'functions of step {i}',
        k['learning_rate_fn'] == 'create_learning_rate_fn'
        and k['kl_penalty_fn'] == 'create_kl_penalty_fn'
        and k['config'] is conf and k['sem'][0] == 'sem')
  if not crashed:
    say('returned state', last.seen[0].seq == seen)
    same('returned step', last.step[0], o + n)
  # keys
  if w.trained:
    keys = [np.asarray(k['train_rng']) for _, _, k in w.trained]
    more = [np.asarray(k['eval_rng']) for _, _, _, k in w.evals]
    rows = [tuple(r) for r in keys[0].reshape(w.devices, -1)]
    if more:
      rows += [tuple(r) for r in more[0].reshape(w.devices, -1)]
    say('keys of devices and of training and evaluation differ',
        len(set(rows)) == len(rows))
  # evaluations: after training step i, the next S batches
  at = {}
  for c, s, b, k in w.evals:
    at.setdefault(c, []).append((s, b, k))
  many = 0
  w_eval = [x for x in w.writes if any(k.startswith('eval_') for k in x[2])]
  w_train = [x for x in w.writes if any(k.startswith('train_') for k in x[2])]
  say('evaluation without a step', not at.get(0))
  for i in range(n):
    es = at.get(i + 1, [])
    due = v(o + i + 1) % v(E) == 0
    out.append((f'{len(es)} evaluations after step {i}',
                z3.If(due, v(S), 0) == len(es)))
    say(f'state evaluated after step {i}', all(
        s.seen[0].seq == w.first.seen.seq + tuple(
            ('train', j) for j in range(i + 1)) for s, _, _ in es))
    say(f'batches evaluated after step {i}',
        [b for _, b, _ in es] == [('eval', many + j) for j in range(len(es))])
    say('functions of evaluations', all(
        k['kl_penalty_fn'] == 'create_kl_penalty_fn' and k['config'] is conf
        and k['sem'][0] == 'sem' and k['first_order_perm'] == 'transfer_perm'
        for _, _, k in es))
    ws = [x for x in w_eval if x[0] == i + 1]
    say(f'evaluation report after step {i}', len(ws) == bool(es))
    for _, st, d in ws:
      same('step of an evaluation report', st, o + i + 1)
      ms = [w.metrics(100 + many + j + 1) for j in range(len(es))]
      for name in ms[0]:
        say(f'mean {name} of the evaluation after step {i}', np.isclose(
            d.get('eval_' + name, np.nan), np.mean([m[name] for m in ms])))
    many += len(es)
  # reports of training
  begin = 0
  for i in range(n):
    ws = [x for x in w_train if x[0] == i + 1]
    if L is None:
      say('training report', not ws)
      continue
    due = v(o + i + 1) % v(L) == 0
    out.append((f'{len(ws)} training reports after step {i}',
                z3.If(due, 1, 0) == len(ws)))
    for _, st, d in ws:
      same('step of a training report', st, o + i + 1)
      ms = [w.metrics(j + 1) for j in range(begin, i + 1)]
      for name in ms[0]:
        say(f'mean {name} of training reported after step {i}', np.isclose(
            d.get('train_' + name, np.nan), np.mean([m[name] for m in ms])))
      begin = i + 1
  # checkpoints
  took = {}
  for where, s, step in w.saved:
    took.setdefault(len(s.seen.seq) - len(w.first.seen.seq), []).append(
        (where, s, step))
  for i in range(n):
    ss = took.pop(i + 1, [])
    due = v(o + i + 1) % v(C) == 0
    if not crashed or i < n - 1:
      final = v(o + i + 1) == v(N)
      out.append((f'{len(ss)} checkpoints after step {i}',
                  z3.If(z3.Or(due, final), 1, 0) == len(ss)))
    for where, s, step in ss:
      say('place of a checkpoint', where == '/nowhere')
      say('content of a checkpoint', s.seen.seq == w.first.seen.seq + tuple(
          ('train', j) for j in range(i + 1)))
      same('name of a checkpoint', step, o + i + 1)
      same('step of a checkpoint', s.step, o + i + 1)
  say('other checkpoints', not took)
  say('checkpoint looked for', w.args['restore'][0] == '/nowhere'
      and w.args['restore'][1].seen.seq == ())
  # numbers handed to the schedules
  for name in ('create_learning_rate_fn', 'create_kl_penalty_fn'):
    same(f'steps per epoch of {name}', w.args[name]['steps_per_epoch'], P)
    say(f'configuration of {name}', w.args[name]['config'] is conf)
  rate = w.args['create_learning_rate_fn']['base_learning_rate']
  if isinstance(conf.learning_rate, Rate):
    if not isinstance(rate, Rate):
      raise Unsupported('learning rate')
    out.append(('base learning rate', z3.ToReal(rate.num) * 256 == z3.ToReal(
        conf.learning_rate.num) * v(conf.batch_size)
                * z3.RealVal(repr(rate.den))))
  else:
    say('base learning rate', np.isclose(
        rate, conf.learning_rate * conf.batch_size / 256))
  say('schedule of the optimiser', w.args['create_train_state'][
      'learning_rate_fn'] == 'create_learning_rate_fn')
  say('model', w.args['create_train_state']['model'] == 'create_model')
  for kind, flag in (('train', True), ('eval', False)):
    k = w.args[kind]
    say(f'{kind} split', k['train'] == flag and k['config'] is conf)
    b = k['batch_size']
    out.append((f'{kind} batch of a process',
                v(b) == v(conf.batch_size) / w.processes))
  return out


def concrete(make, env):
  """Runs the loop on numbers; a description of what went wrong, or None."""
  w, conf, want, before = make(env)
  if before is not None:
    w.start = before
  try:
    last = w.run(conf)
  except Wrong as e:
    return str(e)
  except Crash:
    return None
  for what, c in claims(w, conf, last, **want):
    if not z3.is_true(z3.simplify(c)) if z3.is_expr(c) else not c:
      return f'{what} (steps {[str(s.step[0]) for s, _, _ in w.trained]})'


def decide(h, make, syms, cons, *, paths=20000):
  """Every path of the loop on symbols, against the claims."""
  def numbers(m):
    return {k: value(m, x) for k, x in syms.items()}

  def replay(m, what):
    env = numbers(m)
    d = concrete(make, env)
    if d is None:
      raise Unreproduced(f'{h.name}: {what}: {env}')
    h.fail(d, env)

  def run(path):
    w, conf, want, before = make(syms)
    if before is not None:
      w.start = before
    try:
      last = w.run(conf)
    except Wrong as e:
      replay(path.model(), str(e))
    cs = claims(w, conf, last, **want)
    STATS.obligations += len(cs)
    plain = [what for what, c in cs if not z3.is_expr(c) and not c]
    if plain:
      replay(path.model(), plain[0])
    zs = [(what, c) for what, c in cs if z3.is_expr(c)]
    m = path.proves(z3.And([c for _, c in zs]))
    if m is not None:
      bad = [what for what, c in zs
             if not z3.is_true(m.eval(c, model_completion=True))]
      replay(m, (bad or ['?'])[0])
  h.sample(paths=dse.explore(run, cons, max_paths=paths, budget=150), symbols=len(syms))


NOTE = ('runs of at most {} steps starting anywhere up to step 10^6; periods '
        'of evaluation, checkpoint and report of any length up to 10^6')
FUNCS = ('train.train_and_evaluate', 'train.save_checkpoint',
         'train.restore_checkpoint', 'train.create_input_iter',
         'train.prepare_tf_data')
STUBS = ('models, optimiser, training and evaluation step, meshes, devices and '
         'file library are stand-ins that record (C30, C32, C25 and C17 cover '
         'what they do); a period is at least one step')


def begin(h, steps):
  h.func(*FUNCS)
  h.bound(NOTE.format(steps))
  h.assume(STUBS)


def start(o):
  return State(o, Seen((('earlier',),)))


def short(p, steps):
  """Periods that may end twice in a run are told apart."""
  if isinstance(p, SymInt) and p <= steps + 1:
    return p.realise()
  return p


def schedule(h, *, which, steps, devices=2, fresh=False):
  """Steps, evaluations, checkpoints and reports in one run."""
  begin(h, steps)
  names = ['o', 'N', 'S'] + list(which)
  x, cons = dse.ints('s', (len(names),), 1, 10**6)
  syms = dict(zip(names, x))
  o, n = syms['o'].e, syms['N'].e
  cons += [n - o <= steps, syms['S'].e <= 3]
  if fresh:
    cons += [n <= steps]
  if len(which) > 2:
    h.bound('periods of all three kinds together only up to one more than '
            'the steps')
    cons += [syms[k].e <= steps + 1 for k in which]

  def make(v):
    big = 10**9
    e, c = (short(v.get(k, big), steps) for k in 'EC')
    lo = short(v.get('L'), steps)
    if isinstance(lo, SymInt):
      lo = Period(lo.e)
    conf = config(num_train_steps=v['N'], steps_per_eval=v['S'],
                  eval_every_epochs=e, checkpoint_epochs=c,
                  log_every_steps=lo)
    w = World({TRAIN: 6, VALID: 50}, devices=devices)
    want = dict(N=v['N'], E=e, C=c, L=lo, S=v['S'], P=1)
    return w, conf, want, None if fresh else start(v['o'])
  for env in (dict(o=3, N=8, S=2, E=2, C=3, L=2),
              dict(o=5, N=5, S=1, E=1, C=1, L=1)):
    h.smoke(lambda env=env: concrete(make, env), times=1)
  decide(h, make, syms, cons)


def count(split, conf, n, debug):
  """Windows in shards of n snapshots, at least one each."""
  pre = 'train' if split == TRAIN else 'eval'
  one = (n - conf[pre + '_window_size']) // conf[pre + '_window_stride'] + 1
  return one * (1 if debug else SHARDS[split])


def derived(h, *, epochs, every, saved, batch, processes=1, whole_eval=False,
            debug=False):
  """Numbers of steps that follow from the size of the data."""
  begin(h, 2)
  h.bound('shards of up to 10^6 snapshots; the stated numbers of epochs and '
          'fractions of an epoch')
  x, cons = dse.ints('d', (3,), 7, 10**6)
  syms = dict(zip(('G', 'V', 'o'), x))
  base = config()
  g, vv = (val(count(k, base, syms[n], debug))
           for k, n in ((TRAIN, 'G'), (VALID, 'V')))
  o = syms['o'].e
  p = g / batch
  floor = lambda q: (p * q[0]) / q[1]
  cons += [p >= 1, floor(every) >= 1, floor(saved) >= 1,
           floor(epochs) - o <= 2, vv >= batch]
  if whole_eval:
    cons += [vv / batch <= 3]

  def make(v):
    symbolic = isinstance(v['G'], SymInt)
    frac = (lambda q: Ratio(z3.IntVal(q[0]), q[1])) if symbolic else (
        lambda q: q[0] / q[1])
    per = count(TRAIN, base, v['G'], debug) // batch
    part = lambda q: (per * q[0]) // q[1]
    conf = config(num_train_steps=-1, num_epochs=frac(epochs),
                  steps_per_eval=-1 if whole_eval else 1, batch_size=batch, debug=debug,
                  eval_every_epochs=frac(every), checkpoint_epochs=frac(saved),
                  learning_rate=Rate(z3.IntVal(7)) if symbolic else 7.)
    w = World({TRAIN: v['G'], VALID: v['V']}, processes=processes,
              rows=batch // processes)
    want = dict(N=part(epochs), E=part(every), C=part(saved), L=None,
                S=count(VALID, base, v['V'], debug) // batch if whole_eval
                else 1, P=per)
    return w, conf, want, start(v['o'])

  def one():
    env = dict(G=32 * batch + 9, V=7, o=0)
    while count(VALID, base, env['V'], debug) < batch:
      env['V'] += 3
    env['o'] = make(env)[2]['N'] - 2
    return concrete(make, env)
  h.smoke(one, times=1)
  decide(h, make, syms, cons)


def rate(h, *, devices):
  """Any batch size: refused or scaled to the right learning rate."""
  begin(h, 0)
  h.bound('batches of up to 4096 on 1, 2, 3 or 8 devices')
  (b,), cons = dse.ints('b', (1,), 1, 4096)

  def make(v):
    symbolic = isinstance(v['b'], SymInt)
    conf = config(num_train_steps=1, batch_size=v['b'],
                  learning_rate=Rate(z3.IntVal(3)) if symbolic else 3.)
    return World({TRAIN: 10**5, VALID: 10**5}, devices=devices), conf, {}, (
        start(1))
  total = count(TRAIN, config(), 10**5, False)

  def look(v):
    w, conf, _, before = make(v)
    w.start = before
    try:
      w.run(conf)
    except ValueError:
      return None
    if w.trained:
      raise Wrong('a finished run continues')
    return w.args['create_learning_rate_fn']

  def numbers(v):
    try:
      got = look(v)
    except Wrong as e:
      return f'batch {v["b"]}: {e}'
    if (got is None) != (v['b'] % devices != 0):
      return f'batches of {v["b"]} on {devices} devices: {got and "accepted"}'
    if got is None:
      return None
    if not np.isclose(got['base_learning_rate'], 3. * v['b'] / 256):
      return f'learning rate {got["base_learning_rate"]} of {v["b"]}'
    if got['steps_per_epoch'] != total // v['b']:
      return f'{got["steps_per_epoch"]} steps of {v["b"]}'
  h.smoke(lambda: numbers(dict(b=6 * devices)), times=1)

  def run(path):
    try:
      got = look(dict(b=b))
    except Wrong as e:
      v = dict(b=value(path.model(), b))
      d = numbers(v)
      if d is None:
        raise Unreproduced(f'{h.name}: {e}: {v}')
      h.fail(d, v)
    if got is None:
      cs = [val(b) % devices != 0]
    else:
      r = got['base_learning_rate']
      if not isinstance(r, Rate):
        raise Unsupported('learning rate')
      q = z3.RealVal(repr(r.den))
      cs = [val(b) % devices == 0,
            z3.ToReal(r.num) * 256 == z3.ToReal(3 * val(b)) * q,
            val(got['steps_per_epoch']) == total / val(b)]
    STATS.obligations += len(cs)
    for c in cs:
      m = path.proves(c)
      if m is not None:
        v = dict(b=value(m, b))
        h.fail(numbers(v) or str(c), v)
  h.sample(paths=dse.explore(run, cons, budget=150), devices=devices)


def resume(h, *, steps):
  """A crash before any step, and the run that follows."""
  begin(h, steps)
  h.bound('one crash at any step, then a restart; the file library keeps a '
          'checkpoint it was given')
  names = ('o', 'N', 'C', 'K')
  x, cons = dse.ints('r', (4,), 1, 10**6)
  syms = dict(zip(names, x))
  cons += [syms['N'].e - syms['o'].e <= steps, syms['K'].e <= steps]

  def history(v):
    v = dict(v, C=short(v['C'], steps))
    conf = config(num_train_steps=v['N'], checkpoint_epochs=v['C'])
    w = World({TRAIN: 6, VALID: 50}, crash=v['K'] - 1)
    w.start = start(v['o'])
    want = dict(N=v['N'], E=10**9, C=v['C'], L=None, S=2, P=1)
    out = []
    try:
      last = w.run(conf)
      return claims(w, conf, last, **want)
    except Crash:
      out += claims(w, conf, None, crashed=True, **want)
    done = len(w.trained)
    kept = w.start
    w.crash = None
    w.saved = []
    last = w.run(conf)
    out += claims(w, conf, last, **want)
    out.append(('resumed from the last checkpoint', w.first is kept))
    # no more than a period is lost
    lost = val(v['o'] + done) - val(kept.step)
    out.append((f'steps lost', z3.And(lost >= 0, lost < val(v['C']))
                if done else True))
    # the steps of the final state are those of one uninterrupted run
    out.append(('number of steps of the final state',
                z3.If(val(v['N']) > val(v['o']), val(v['N']) - val(v['o']), 0)
                == len(last.seen[0].seq) - 1))
    return out

  def numbers(v):
    try:
      cs = history(v)
    except Wrong as e:
      return str(e)
    for what, c in cs:
      if not z3.is_true(z3.simplify(c)) if z3.is_expr(c) else not c:
        return what
  h.smoke(lambda: numbers(dict(o=2, N=8, C=2, K=4)), times=1)
  h.smoke(lambda: numbers(dict(o=4, N=7, C=4, K=1)), times=1)

  def run(path):
    try:
      cs = history(syms)
    except Wrong as e:
      cs = [(str(e), False)]
    STATS.obligations += len(cs)
    c = z3.And([c if z3.is_expr(c) else z3.BoolVal(bool(c)) for _, c in cs])
    m = path.proves(c)
    if m is not None:
      v = {k: value(m, s) for k, s in syms.items()}
      d = numbers(v)
      if d is None:
        raise Unreproduced(f'{h.name}: {v}')
      h.fail(d, v)
  h.sample(paths=dse.explore(run, cons, budget=150), symbols=4)


def real(h):
  """The loop with its devices, checkpoints and writers, on tiny steps."""
  begin(h, 8)
  h.assume('the stand-ins are compared with runs on two devices with the '
           'checkpoint library and metric writers')
  import tensorflow as tf

  def one(n, c, e, stop, log=None, whole_eval=False):
    evaluated = []

    def split(*a, **k):
      kind = bind(SPLITS, a, k)

      def gen():
        for i in itertools.count():
          if kind['train'] and stop is not None and i == stop[0]:
            raise Crash()
          rows = np.array([[i, r] for r in range(kind['batch_size'])], float)
          yield dict(t=tf.constant(rows))
      return gen()

    def make(*a, **k):
      return train_state.TrainState.create(
          apply_fn=None, params=dict(w=jnp.zeros((64,))), tx=optax.sgd(1.))

    def step(state, batch, **k):
      i = batch['t'][0, 0].astype(int)
      state = state.replace(step=state.step + 1, params=dict(
          w=state.params['w'].at[state.step].set(i + 1.)))
      m = dict(loss=jax.lax.pmean(i + batch['t'][:, 1].mean(), 'batch'))
      return state, m

    def evaluate(state, batch, **k):
      i = batch['t'][0, 0]
      jax.debug.callback(lambda s, i: evaluated.append((int(s), int(i))),
                         state.step, i)
      return dict(loss=jax.lax.pmean(i, 'batch'))
    ip = train.input_pipeline
    snapshots = {TRAIN: 6 * SHARDS[TRAIN], VALID: 13 * SHARDS[VALID]}
    keep = lambda v: (lambda *a, **k: v)
    conf = config(num_train_steps=n, checkpoint_epochs=c, eval_every_epochs=e,
                  steps_per_eval=-1 if whole_eval else 2, batch_size=
                  12 if whole_eval else 24, log_every_steps=log)
    if whole_eval:         # 24 training and 12 validation windows
      conf.update(checkpoint_epochs=c / 2, eval_every_epochs=e / 2)
    full = niles.get_config().to_dict()
    full.update({k: x for k, x in conf.items() if k != 'model'})
    conf = ml_collections.FrozenConfigDict(full)

    place = tempfile.mkdtemp(prefix='c35')

    def run():
      with patched(
          (ip, 'NUM_SPLIT_EXAMPLES', snapshots), (ip, 'create_split', split),
          (train, 'create_model', keep(None)),
          (train, 'create_train_state', make), (train, 'train_step', step),
          (train, 'eval_step', evaluate),
          (train, 'transfer_perm', keep(np.zeros(1)))):
        return jax_utils.unreplicate(train.train_and_evaluate(conf, place))
    ends = lambda p, lo, hi: [s for s in range(lo + 1, hi + 1) if s % p == 0]
    try:
      begun = 0
      if stop is not None:
        try:
          run()
          return 'the input failed and nothing was reported'
        except Crash:
          pass
        got = sorted(int(f.split('_')[1]) for f in os.listdir(place)
                     if f.startswith('checkpoint_'))
        if got != ends(c, 0, got[-1] if got else 0):
          return f'checkpoints {got} after a crash, every {c} steps'
        begun = got[-1] if got else 0
        if begun + c <= stop[0] - 2:
          return f'checkpoints {got} after {stop[0] - 2} steps, every {c}'
        stop = None
      before = len(evaluated)
      last = run()
      jax.effects_barrier()
      want = list(range(1, begun + 1)) + list(range(1, n - begun + 1))
      if int(last.step) != n or not np.array_equal(
          last.params['w'][:n], want):
        return f'step {last.step} trained on {last.params["w"][:n]}: {want}'
      got = sorted(int(f.split('_')[1]) for f in os.listdir(place)
                   if f.startswith('checkpoint_'))
      if got != sorted(set(ends(c, 0, n) + [n])):
        return f'checkpoints {got}, every {c} steps of {n}'
      s = 12 // 12 if whole_eval else 2
      es = ends(e, begun, n)
      # each evaluation is seen by both devices
      ref = sorted((t, i) for j, t in enumerate(es)
                   for i in range(s * j, s * j + s) for _ in range(2))
      if sorted(evaluated[before:]) != ref:
        return f'evaluations {sorted(evaluated[before:])} instead of {ref}'
      again = run()
      if int(again.step) != n:
        return f'a finished run continues to step {again.step}'
    finally:
      shutil.rmtree(place)
  for a in ((5, 2, 3, None, 2), (7, 2, 10**6, (5,)), (3, 4, 1, (2,))):
    h.smoke(lambda a=a: one(*a), times=1)
  h.smoke(lambda: one(4, 2, 2, None, whole_eval=True), times=1)
  solve([False])


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  n = 7 if th else 5
  for which in ('E', 'C', 'L'):
    out.append((f'schedule {which}', schedule, dict(which=which, steps=n)))
  out.append(('schedule all', schedule,
              dict(which='ECL', steps=3 if th else 2)))
  out.append(('schedule from scratch', schedule,
              dict(which='EC', steps=4, fresh=True, devices=1)))
  for k, (ep, ev, sv, b, pr, we) in enumerate((
      ((2, 1), (1, 2), (1, 1), 4, 1, False),
      ((5, 2), (1, 4), (3, 4), 8, 2, False),
      ((1, 1), (1, 1), (1, 8), 4, 1, True),
      ((3, 8), (1, 8), (1, 4), 20, 1, True),
      ((1, 1), (1, 2), (1, 1), 6, 3, True))):
    out.append((f'derived {k}', derived,
                dict(epochs=ep, every=ev, saved=sv, batch=b, processes=pr,
                     whole_eval=we, debug=k == 4)))
  for d in (1, 2, 3, 8):
    out.append((f'rate {d}', rate, dict(devices=d)))
  out.append(('real', real, {}))
  out.append(('resume', resume, dict(steps=6 if th else 4)))
  return out
