"""C25: training windows and element permutations lose nothing."""
import itertools
import types

import numpy as np
import z3

from vlib import boot, dse
from vlib.dse import val, value
from vlib.harness import Unreproduced
from vlib.query import solve
from vlib.sym import Poly, STATS, Unsupported
from swirl_fem.niles import input_pipeline as ip
from swirl_fem.niles import train
import tensorflow_datasets as tfds

TRAIN, VALID = tfds.Split.TRAIN, tfds.Split.VALIDATION


class patched:
  """Sets attributes of modules for the time of a block."""

  def __init__(self, *items):
    self.items = items

  def __enter__(self):
    self.old = [(o, k, getattr(o, k)) for o, k, _ in self.items]
    for o, k, v in self.items:
      setattr(o, k, v)

  def __exit__(self, *a):
    for o, k, v in self.old:
      setattr(o, k, v)


def shard(tag, n):
  """A shard of n snapshots with distinguishable symbolic content."""
  def fill(name, shape):
    out = np.empty((n,) + shape, dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = Poly.var(f'{tag}.{name}[{",".join(map(str, i))}]')
    return out
  return {'u': fill('u', (2, 2)), 'p': fill('p', (2,)), 't': fill('t', ())}


def numbers(tag, n):
  r = np.random.default_rng(abs(hash(str(tag))) % 1000)
  return {'u': r.normal(size=(n, 2, 2)), 'p': r.normal(size=(n, 2)),
          't': r.normal(size=(n,))}


def windows(arr, size, stride, step):
  """The definition: multiples of the stride whose window fits."""
  k, out = 0, []
  while k * stride + size <= len(arr):
    s = k * stride
    out.append([arr[s + d] for d in range(0, size, step)])
    k += 1
  return out


def differs(got, want):
  """Elementwise comparison of (possibly symbolic) arrays."""
  got = np.asarray(got)
  want = np.asarray(want, dtype=got.dtype)
  if got.shape != want.shape:
    return f'shape {got.shape} instead of {want.shape}'
  if got.dtype != object:
    if not np.array_equal(got, want):
      return f'{np.argwhere(got != want)[0].tolist()} differs'
    return None
  bad = []
  for i in np.ndindex(*got.shape):
    STATS.obligations += 1
    a, b = got[i], want[i]
    d = a - b
    if not (isinstance(d, Poly) and not d.terms) and d != 0:
      bad.append((i, a, b))
  if bad and solve([z3.Or(*[differ(a, b) for _, a, b in bad])]) is not None:
    i, a, b = bad[0]
    return f'entry {list(i)} is {a} instead of {b}'
  return None


def differ(a, b):
  from vlib.sym import as_real
  return as_real(a) != as_real(b)


# Windows of one shard ---------------------------------------------------------

def read_windows(data, size, stride, step):
  with patched((ip, 'read_snapshots_file', lambda path: dict(data))):
    return ip._read_and_parse('shard', window_size=size, window_stride=stride,
                              window_step=step)


def window_claim(data, size, stride, step):
  got = read_windows(data, size, stride, step)
  if set(got) != set(data):
    return f'keys {sorted(got)}'
  for k in data:
    d = differs(got[k], windows(data[k], int(size), int(stride), int(step)))
    if d:
      return f'{k}: {d}'
  return None


def windowing(h, *, n):
  h.func('input_pipeline._read_and_parse')
  h.bound(f'shards of up to {10 if h.thorough else 8} snapshots with any '
          'content; every window size up to the shard, every stride and '
          'every inner step')
  h.assume('a shard holds at least one window')
  h.smoke(lambda: window_claim(numbers('s', 11), 4, 3, 2))
  data = shard('s', n)
  p, cons = dse.ints('w', (3,), 1, n + 1)
  cons.append(p[0].e <= n)
  count = [0]

  def run(path):
    d = window_claim(data, p[0], p[1], p[2])
    count[0] += 1
    if d:
      v = [value(path.model(), x) for x in p]
      c = window_claim(numbers('s', n), *v)
      h.fail(c or d, dict(length=n, size=v[0], stride=v[1], step=v[2]))
  paths = dse.explore(run, cons)
  h.sample(length=n, paths=paths)


class Lazy:
  """An array of symbolic length; slicing records the symbolic slice."""

  def __init__(self, n):
    self.n = n

  def __getitem__(self, k):
    if not isinstance(k, slice):
      raise Unsupported('only slices of a lazy array')
    return Window(k)

  @property
  def shape(self):
    return (self.n, 2, 2)


class Window:
  def __init__(self, k):
    self.k = k


def lazy_len(x):
  return x.n if isinstance(x, Lazy) else len(x)


def lazy_range(*a):
  if not any(isinstance(x, dse.SymInt) for x in a):
    yield from range(*a)
    return
  lo, hi, step = (0, a[0], 1) if len(a) == 1 else (tuple(a) + (1,))[:3]
  while lo < hi:
    yield lo
    lo = lo + step


def windowing_any(h, *, most):
  """Shards, windows and strides of any size; up to `most` windows."""
  h.func('input_pipeline._read_and_parse')
  h.bound('shards, windows, strides and inner steps of any size up to 10000 '
          f'as long as at most {most} windows fit')
  (n, size, stride, step), cons = dse.ints('x', (4,), 1, 10000)
  cons += [size.e <= n.e, n.e < size.e + most * stride.e]
  h.smoke(lambda: window_claim(numbers('s', 30), 6, 9, 4))

  def run(path):
    try:
      with patched((ip, 'read_snapshots_file', lambda f: {'t': Lazy(n)})):
        ip.len, ip.range = lazy_len, lazy_range
        try:
          got = ip._read_and_parse(
              'shard', window_size=size, window_stride=stride,
              window_step=step)['t']
        finally:
          del ip.len, ip.range
      if not all(isinstance(w, Window) for w in np.asarray(got).flat):
        raise Unsupported('not a stack of slices')
    except (TypeError, AttributeError, IndexError, Unsupported) as e:
      h.assume('windowing of symbolic length is not encoded for this way of '
               f'slicing ({e!r:.60}); the concrete lengths are')
      return
    ws = list(np.asarray(got).flat)
    claims = [val(size) + len(ws) * val(stride) > val(n)]
    for j, w in enumerate(ws):
      a = val(w.k.start) if w.k.start is not None else z3.IntVal(0)
      b = val(w.k.stop)
      b = z3.If(b > val(n), val(n), b)
      claims.append(a == j * val(stride))
      d = val(w.k.step) if w.k.step is not None else z3.IntVal(1)
      claims += [d == val(step), b > a,
                 (b - a - 1) / d == (val(size) - 1) / val(step)]
    for c in claims:
      STATS.obligations += 1
      m = path.proves(c)
      if m is not None:
        v = [value(m, x) for x in (n, size, stride, step)]
        if v[0] > 10000:
          continue
        d = window_claim(numbers('s', v[0]), *v[1:])
        if d is None:
          raise Unreproduced(f'{h.name}: {c}: {v}')
        h.fail(d, dict(length=v[0], size=v[1], stride=v[2], step=v[3]))
  h.sample(paths=dse.explore(run, cons), windows=most)


# Advertised numbers -----------------------------------------------------------

def advertised(h, *, split, debug):
  """The formula counts exactly the windows, whatever the parameters."""
  h.func('input_pipeline.get_num_examples')
  h.bound('numbers of examples: every shard length up to 10000, window and '
          'stride')
  shards = ip._TRAIN_SHARDS if split == TRAIN else ip._VALID_SHARDS
  count = len(shards)
  (n, w, s, k), cons = dse.ints('a', (4,), 1, 10000)
  cons += [w.e <= n.e, k.e <= 10000]
  total = dict(ip.NUM_SPLIT_EXAMPLES)

  def num(n, w, s):
    total[split] = n * count
    with patched((ip, 'NUM_SPLIT_EXAMPLES', total)):
      return ip.get_num_examples(split, w, s, debug)

  def concrete(n, w, s):
    got = num(n, w, s)
    want = (1 if debug else count) * len(range(0, n - w + 1, s))
    if got != want:
      return (f'{got} examples advertised for {n} snapshots per shard, '
              f'windows of {w} every {s}; there are {want}')
  h.smoke(lambda: concrete(17, 5, 3))
  h.smoke(lambda: concrete(6400, 64, 1))

  def run(path):
    got = num(n, w, s)
    mult = 1 if debug else count
    STATS.obligations += 1
    # window number k - 1 starts at (k - 1) * stride; it exists if it fits
    fits = (val(k) - 1) * val(s) + val(w) <= val(n)
    for c in (z3.Implies(fits, mult * val(k) <= val(got)),
              z3.Implies(z3.And(z3.Not(fits), val(k) >= 1),
                         val(got) <= mult * (val(k) - 1)),
              val(got) % mult == 0):
      m = path.proves(c)
      if m is not None:
        v = [value(m, x) for x in (n, w, s)]
        h.fail(concrete(*v) or f'{c}', dict(shard=v[0], window=v[1],
                                            stride=v[2]))
  dse.explore(run, cons)
  h.sample(split=str(split), debug=debug)


# Whole splits -----------------------------------------------------------------

class FakeDataset:
  """Records what enters the tf pipeline and its batching."""

  def __init__(self, data):
    self.data = data
    self.calls = []

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)

    def call(*a, **k):
      self.calls.append((name, a, k))
      return self
    return call


def build_split(files, *, train_split, window, stride, step, debug, batch,
                procs, index, shards, per_shard):
  """Runs create_split with stubbed storage; returns the recorded dataset."""
  cfg = types.SimpleNamespace(
      debug=debug, cache=False, window_step=step,
      train_window_size=window if train_split else 97,
      train_window_stride=stride if train_split else 89,
      eval_window_size=97 if train_split else window,
      eval_window_stride=89 if train_split else stride)
  tr, va = shards
  num = {TRAIN: len(tr) * per_shard, VALID: len(va) * per_shard}

  def read(path):
    name = str(path)
    for i in list(tr) + list(va):
      if name.endswith(f'shard_{i:02}.hdf5'):
        return dict(files[i])
    raise Unsupported('unexpected file ' + name)

  real = ip.tf
  fake = types.SimpleNamespace(
      data=types.SimpleNamespace(
          Dataset=types.SimpleNamespace(from_tensor_slices=FakeDataset),
          Options=real.data.Options, experimental=real.data.experimental,
          AUTOTUNE=real.data.AUTOTUNE))
  jx = types.SimpleNamespace(
      process_count=lambda: procs, process_index=lambda: index,
      tree=ip.jax.tree, tree_util=ip.jax.tree_util)
  with patched((ip, 'read_snapshots_file', read), (ip, 'tf', fake),
               (ip, 'jax', jx), (ip, 'NUM_SPLIT_EXAMPLES', num),
               (ip, '_TRAIN_SHARDS', list(tr)),
               (ip, '_VALID_SHARDS', list(va)),
               (ip, '_DATASET_DIR', types.SimpleNamespace(value='/nowhere'))):
    return ip.create_split(batch, train_split, cfg)


def split_claim(files, kw, procs):
  """The parts of all processes, in order, are all the windows."""
  tr, va = kw['shards']
  use = list(tr if kw['train_split'] else va)
  if kw['debug']:
    use = use[:1]
  parts = [build_split(files, index=i, procs=procs, **kw)
           for i in range(procs)]
  sizes = {len(p.data['u']) for p in parts}
  if len(sizes) != 1:
    return f'processes get different numbers of examples: {sorted(sizes)}'
  if {k for p in parts for k in p.data} != {'u', 'p', 't'}:
    return f'keys {sorted(parts[0].data)}'
  for k in ('u', 'p', 't'):
    got = np.concatenate([p.data[k] for p in parts])
    want = [w for i in use for w in windows(
        files[i][k], int(kw['window']), int(kw['stride']), int(kw['step']))]
    d = differs(got, want)
    if d:
      return f'{k}: {d}'
  for p in parts:
    b = [(a, k) for name, a, k in p.calls if name == 'batch']
    if not b or (b[0][0] or (b[0][1].get('batch_size'),))[0] != kw['batch']:
      return f'batches: {b}'
  return None


def splits(h, *, train_split, debug, procs):
  h.func('input_pipeline.create_split', 'input_pipeline.get_num_examples')
  h.bound('whole splits: 2 + 2 shards of 6 snapshots with any content, every '
          'window size, stride and inner step up to 3, 1 or 2 processes '
          'where they divide the examples')
  h.assume('the tf dataset pipeline batches and shuffles what it is given')
  n, shards = 6, ((0, 1), (2, 3))
  files = {i: shard(f's{i}', n) for i in range(4)}
  nums = {i: numbers(f's{i}', n) for i in range(4)}
  p, cons = dse.ints('w', (3,), 1, 3)
  kw = dict(train_split=train_split, debug=debug, batch=5, shards=shards,
            per_shard=n)
  h.smoke(lambda: split_claim(
      nums, dict(kw, window=3, stride=1, step=1), 1))

  def run(path):
    w, s, t = p
    per = (n - w) // s + 1
    if ((per if debug else per * 2) % procs) != 0:
      raise dse.Abandon()
    args = dict(kw, window=w, stride=s, step=t)
    d = split_claim(files, args, procs)
    if d:
      v = [value(path.model(), x) for x in p]
      args = dict(kw, window=v[0], stride=v[1], step=v[2])
      h.fail(split_claim(nums, args, procs) or d,
             dict(size=v[0], stride=v[1], step=v[2], processes=procs,
                  debug=debug))
  h.sample(paths=dse.explore(run, cons), processes=procs, debug=debug)


def disjoint(h):
  """The shards of the two splits do not meet, as the configuration stands."""
  h.func('input_pipeline._TRAIN_SHARDS')
  i = z3.Int('shard')
  STATS.obligations += 2

  def among(xs):
    return z3.Or(*[i == x for x in xs])
  m = solve([among(ip._TRAIN_SHARDS), among(ip._VALID_SHARDS)])
  if m is not None:
    h.fail(f'shard {m.eval(i)} is used for training and validation')
  for xs in (ip._TRAIN_SHARDS, ip._VALID_SHARDS):
    if solve([z3.Not(z3.Distinct(*[z3.IntVal(int(x)) for x in xs]))]):
      h.fail(f'a shard is read twice: {xs}')
  names = [ip._DATASET_FILENAME.format(x)
           for x in ip._TRAIN_SHARDS + ip._VALID_SHARDS]
  if len(set(names)) != len(names):
    h.fail('two shards share a file')
  for split, xs in ((TRAIN, ip._TRAIN_SHARDS), (VALID, ip._VALID_SHARDS)):
    if ip.NUM_SPLIT_EXAMPLES[split] % len(xs):
      h.fail(f'{split}: shards of unequal size')
  h.witness([among(ip._TRAIN_SHARDS)])


# The stream of batches --------------------------------------------------------

class Deal:
  """A dataset as the sequence of its items, shuffles left to the solver.

  `start(cons)` begins one iteration and returns a generator of items: z3
  integers (indices of the slices given to from_tensor_slices) or lists of
  them, once batched. Every shuffle of every iteration is a fresh choice that
  the buffer of that size allows; its constraints are added to `cons`.
  """
  fresh = itertools.count()

  def __init__(self, data=None, start=None):
    if start is None:
      sizes = {len(v) for v in data.values()}
      if len(sizes) != 1:
        raise ValueError(f'lengths {sizes}')
      n = sizes.pop()
      start = lambda cons: (z3.IntVal(i) for i in range(n))
    self.data, self.start = data, start

  def then(self, gen):
    return Deal(self.data, lambda cons: gen(self.start, cons))

  def with_options(self, options):
    return self

  def prefetch(self, buffer_size=None, name=None):
    return self

  def cache(self, filename=''):
    kept = []
    def gen(start, cons):
      # the first complete iteration is what later ones repeat
      if kept:
        return iter(kept[0])
      xs = list(start(cons))
      kept.append(xs)
      return iter(xs)
    return self.then(gen)

  def take(self, count, name=None):
    n = int(count)
    return self.then(lambda start, cons: (
        start(cons) if n < 0 else itertools.islice(start(cons), n)))

  def skip(self, count, name=None):
    return self.then(lambda start, cons: itertools.islice(
        start(cons), int(count), None))

  def shard(self, num_shards, index, name=None):
    return self.then(lambda start, cons: itertools.islice(
        start(cons), int(index), None, int(num_shards)))

  def repeat(self, count=None, name=None):
    def gen(start, cons):
      times = (itertools.count() if count is None or int(count) < 0
               else range(int(count)))
      for _ in times:
        empty = True
        for x in start(cons):
          empty = False
          yield x
        if empty:
          return
    return self.then(gen)

  def batch(self, batch_size, drop_remainder=False, **kw):
    b = int(batch_size)
    def gen(start, cons):
      it = start(cons)
      while True:
        xs = list(itertools.islice(it, b))
        if not xs or (drop_remainder and len(xs) < b):
          return
        yield xs
        if len(xs) < b:
          return
    return self.then(gen)

  def unbatch(self, name=None):
    return self.then(lambda start, cons: (
        x for xs in start(cons) for x in xs))

  def shuffle(self, buffer_size, seed=None, reshuffle_each_iteration=None,
              name=None):
    size = int(buffer_size)
    fixed = []
    def gen(start, cons):
      it = start(cons)
      buffer, picks = list(itertools.islice(it, size)), []
      if buffer and isinstance(buffer[0], list):
        raise Unsupported('shuffled batches')
      total = len(buffer)
      seen = list(buffer)
      done = False
      while len(picks) < total:
        j = len(picks)
        if reshuffle_each_iteration is False and j < len(fixed):
          q = fixed[j]
        else:
          q = z3.Int(f'pick{next(Deal.fresh)}')
          if reshuffle_each_iteration is False:
            fixed.append(q)
        cons += [q >= 0, q < len(seen)] + [q != p for p in picks]
        picks.append(q)
        e = seen[-1]
        for k in range(len(seen) - 2, -1, -1):
          e = z3.If(q == k, seen[k], e)
        y = z3.Int(f'item{next(Deal.fresh)}')
        cons.append(y == e)
        yield y
        if not done:
          more = list(itertools.islice(it, 1))
          done = not more
          seen += more
          total += len(more)
    return self.then(gen)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported(f'dataset operation {name}')


class storage:
  """A directory of real shard files, small, in place of the real dataset."""

  def __init__(self, files, train_shards=None, valid_shards=None):
    self.files = files
    self.tr = list(train_shards or ip._TRAIN_SHARDS)
    self.va = list(valid_shards or ip._VALID_SHARDS)

  def __enter__(self):
    import tempfile
    import h5py
    self.dir = tempfile.TemporaryDirectory(prefix='c25')
    for i, data in self.files.items():
      name = f'{self.dir.name}/{ip._DATASET_FILENAME.format(i)}'
      with h5py.File(name, 'w') as f:
        for k, v in data.items():
          f[k] = v
    n = {len(d['t']) for d in self.files.values()}.pop()
    self.patch = patched(
        (ip, 'NUM_SPLIT_EXAMPLES', {TRAIN: n * len(self.tr),
                                    VALID: n * len(self.va)}),
        (ip, '_TRAIN_SHARDS', self.tr), (ip, '_VALID_SHARDS', self.va),
        (ip, '_DATASET_DIR', types.SimpleNamespace(value=self.dir.name)))
    self.patch.__enter__()

  def __exit__(self, *a):
    self.patch.__exit__(*a)
    self.dir.cleanup()


def stream_config(*, train_split, window, stride, step, debug, cache):
  other = 3 if window != 3 else 2
  return types.SimpleNamespace(
      debug=debug, cache=cache, window_step=step,
      train_window_size=window if train_split else other,
      train_window_stride=stride if train_split else 1,
      eval_window_size=other if train_split else window,
      eval_window_stride=1 if train_split else stride)


def real_stream(*, n, per_epoch=3, tr=None, va=None, train_split=True,
                window=2, stride=1, step=1, debug=False, cache=False, batch=4,
                procs=1, index=0, through_train=False):
  """The stream the real tensorflow deals from real files, judged."""
  r = np.random.default_rng(7)
  tr = list(ip._TRAIN_SHARDS if tr is None else tr)
  va = list(ip._VALID_SHARDS if va is None else va)
  files = {i: {'u': r.normal(size=(n, 2, 1)), 'p': r.normal(size=(n, 3)),
               't': 1e9 * (i + 1) + 1e-3 * np.arange(n)} for i in tr + va}
  use = (tr if train_split else va)[:1 if debug else None]
  want = {k: np.stack([w for i in use for w in windows(
      files[i][k], window, stride, step)]) for k in ('u', 'p', 't')}
  total = len(want['t'])
  share = total // procs
  lo = index * share
  where = {want['t'][i].tobytes(): i for i in range(total)}
  cfg = stream_config(train_split=train_split, window=window, stride=stride,
                      step=step, debug=debug, cache=cache)
  per = share // batch
  real = ip.jax
  jx = types.SimpleNamespace(
      process_count=lambda: procs, process_index=lambda: index,
      tree=real.tree, tree_util=real.tree_util,
      local_device_count=real.local_device_count)
  with storage(files, tr, va), patched((ip, 'jax', jx)):
    ds = ip.create_split(batch, train_split, cfg)
    it = iter(map(train.prepare_tf_data, ds) if through_train
              else ds.as_numpy_iterator())
    for e in range(per_epoch):
      seen = []
      for b in range(per):
        try:
          x = next(it)
        except StopIteration:
          return f'the stream ends after {e} epochs and {b} batches'
        x = {k: np.asarray(v) for k, v in x.items()}
        if through_train:
          x = {k: v.reshape((-1,) + v.shape[2:]) for k, v in x.items()}
        if set(x) != {'u', 'p', 't'}:
          return f'keys {sorted(x)}'
        if any(len(v) != batch for v in x.values()):
          return (f'batch {b} of epoch {e} has {len(x["t"])} examples, not '
                  f'{batch}')
        for j in range(batch):
          i = where.get(x['t'][j].astype(np.float64).tobytes())
          if i is None:
            return f'epoch {e}: times {x["t"][j]} are of no window'
          for k in x:
            if not np.array_equal(x[k][j], want[k][i]):
              return f'{k} of window {i} is not what the file holds'
          if not lo <= i < lo + share:
            return f'window {i} is of another process'
          seen.append(i)
      if len(set(seen)) != len(seen):
        dup = [i for i in seen if seen.count(i) > 1][0]
        return f'window {dup} is dealt {seen.count(dup)} times in epoch {e}'
  return None


def stream(h, *, train_split, cache, debug):
  """Every shuffle the dataset may make deals each window once an epoch."""
  h.func('input_pipeline.create_split')
  h.bound('streams: 2 + 2 shards of up to 5 snapshots, any batch size, three '
          'epochs, 1 or 2 processes; every order the shuffling buffers allow')
  h.assume('tf.data does what its documentation says (batch, shuffle, repeat, '
           'cache, take, skip, shard)')
  shards = ((0, 1), (2, 3))
  real = ip.tf
  cases = [(4, 2, 1, 1, 3, 1, 0), (3, 2, 1, 1, 1, 1, 0), (3, 1, 1, 1, 4, 1, 0),
           (5, 2, 2, 1, 4, 1, 0), (5, 3, 1, 2, 2, 1, 0), (5, 2, 1, 1, 1, 2, 1),
           (5, 2, 1, 1, 2, 2, 0)]
  done = 0
  for n, w, s, k, b, procs, index in cases:
    files = {i: numbers(f'd{i}', n) for i in range(4)}
    per = len(range(0, n - w + 1, s))
    share = per * (1 if debug else 2)
    if share % procs:
      continue
    share //= procs
    kept = share // b
    if not kept:
      continue
    kw = dict(train_split=train_split, window=w, stride=s, step=k,
              debug=debug, cache=cache, procs=procs, index=index)
    fake = types.SimpleNamespace(
        data=types.SimpleNamespace(
            Dataset=types.SimpleNamespace(from_tensor_slices=Deal),
            Options=real.data.Options, experimental=real.data.experimental,
            AUTOTUNE=real.data.AUTOTUNE))
    with storage(files, *shards), patched(
        (ip, 'tf', fake), (ip, 'jax', types.SimpleNamespace(
            process_count=lambda p=procs: p, process_index=lambda i=index: i,
            tree=ip.jax.tree, tree_util=ip.jax.tree_util))):
      ds = ip.create_split(b, train_split, stream_config(
          **{x: kw[x] for x in ('train_split', 'window', 'stride', 'step',
                                'debug', 'cache')}))
    if len(ds.data['t']) != share:
      h.fail(f'{len(ds.data["t"])} windows instead of {share}',
             dict(kw, snapshots=n))
    cons = []
    it = ds.start(cons)
    epochs = 3
    def confirm(what):
      c = None
      for extra in (0, 4, 9):
        c = c or real_stream(n=n + extra, tr=shards[0], va=shards[1], batch=b,
                             per_epoch=6, **kw)
      if c is None:
        raise Unreproduced(f'{h.name}: {what}: {kw} {n} {b}')
      h.fail(c, dict(kw, snapshots=n, batch=b))
    for e in range(epochs):
      batches = list(itertools.islice(it, kept))
      STATS.obligations += 2
      if len(batches) < kept:
        confirm(f'{len(batches)} batches in epoch {e}')
      if any(not isinstance(x, list) or len(x) != b for x in batches):
        confirm('a batch is not full')
      xs = [x for bt in batches for x in bt]
      h.witness(cons)
      m = solve(list(cons) + [z3.Or(
          z3.Not(z3.Distinct(*xs)) if len(xs) > 1 else z3.BoolVal(False),
          *[z3.Or(x < 0, x >= share) for x in xs])])
      if m is not None:
        confirm(f'epoch {e} deals {[m.eval(x, True) for x in xs]}')
    done += 1
  h.sample(cases=done)


def dealt(h):
  """The real pipeline on real files, as it is configured."""
  h.func('input_pipeline.create_split', 'input_pipeline.read_snapshots_file',
         'train.prepare_tf_data')
  h.assume('concrete runs of the real pipeline over all configured shards: '
           'cached or not, debug or not, training or validation')
  for kw in (dict(n=4), dict(n=4, cache=True), dict(n=7, debug=True, batch=2),
             dict(n=9, debug=True, cache=True, batch=3, window=3, stride=2,
                  step=2),
             dict(n=6, train_split=False, window=3, batch=5),
             dict(n=6, train_split=False, cache=True, batch=3),
             dict(n=6, train_split=False, debug=True, batch=1, window=1),
             dict(n=150, batch=64, per_epoch=2, window=3, stride=1),
             dict(n=130, batch=32, per_epoch=2, window=64, stride=2, step=8),
             dict(n=700, train_split=False, batch=128, per_epoch=2),
             dict(n=5, procs=4, index=3, batch=2),
             dict(n=5, procs=2, index=0, batch=7, cache=True),
             dict(n=5, train_split=False, procs=4, index=1, batch=1),
             dict(n=6, batch=4, through_train=True)):
    h.smoke(lambda kw=kw: real_stream(**kw), 1)
  h.sample()
  solve([False])


# Multiscale permutation -------------------------------------------------------

def perm_claims(perm, size, patches, factors):
  """Formulas over symbolic positions; (name, negation, symbols)."""
  n = len(perm)
  i, j = z3.Ints('i j')
  # coordinates of the element at a position, as a lookup
  def look(x, f):
    e = z3.IntVal(f(perm[n - 1]))
    for k in range(n - 2, -1, -1):
      e = z3.If(x == k, z3.IntVal(f(perm[k])), e)
    return e
  rng = [i >= 0, i < n, j >= 0, j < n]
  pi, pj = look(i, int), look(j, int)
  out = [('an element appears twice', rng + [i != j, pi == pj]),
         ('an element is out of range',
          rng + [z3.Or(pi < 0, pi >= size * size)])]
  # a patch at a level is a square block; its elements are contiguous, that is,
  # positions in the same stretch lie in the same block and conversely
  width = list(factors) + [size]
  for w in width:
    block = lambda x, w=w: (look(x, lambda e: (e // size) // w),
                            look(x, lambda e: (e % size) // w))
    (a, b), (c, d) = block(i), block(j)
    same = z3.And(a == c, b == d)
    stretch = (i / (w * w)) == (j / (w * w))
    out.append((f'a patch of width {w} is torn apart',
                rng + [same != stretch]))
  return out, (i, j)


def multiscale(h, *, patches):
  h.func('train.make_multiscale_perm')
  h.bound('permutations: all splittings of grids of up to 24 elements a side '
          'into nested patches, one to three levels; every pair of positions')
  base, *rest = patches
  size = int(np.prod(patches))
  factors = tuple(int(np.prod(patches[:k + 1])) for k in range(len(rest)))
  if rest == [2, 3] and base == 2:
    perm = train.make_multiscale_perm()      # the default arguments
  else:
    perm = train.make_multiscale_perm(size, tuple(rest), factors)
  perm = np.asarray(perm)
  if perm.shape != (size * size,):
    h.fail(f'{perm.shape} entries for {size * size} elements')
  claims, (i, j) = perm_claims(perm, size, rest, factors)
  h.witness(claims[0][1][:4])
  for what, neg in claims:
    STATS.obligations += 1
    m = solve(neg)
    if m is not None:
      a, b = [m.eval(x, True).as_long() for x in (i, j)]
      h.fail(f'{what}: positions {a} and {b} hold elements {perm[a]} and '
             f'{perm[b]} (width {size})',
             dict(size=size, patches=rest, factors=factors))
  h.sample(size=size, patches=rest)


def harnesses(tier):
  out = []
  for n in range(1, 11 if tier == 'thorough' else 9):
    out.append((f'windows of {n} snapshots', windowing, dict(n=n)))
  out.append(('windows of any size', windowing_any,
              dict(most=12 if tier == 'thorough' else 6)))
  for name, split in (('train', TRAIN), ('valid', VALID)):
    for debug in (False, True):
      out.append((f'advertised {name} {"debug" if debug else "full"}', advertised,
                  dict(split=split, debug=debug)))
  for tr in (True, False):
    for debug in (False, True):
      for procs in (1, 2):
        out.append((f'split {"train" if tr else "valid"} '
                    f'{"debug" if debug else "full"} {procs} processes',
                    splits, dict(train_split=tr, debug=debug, procs=procs)))
  out.append(('shards disjoint', disjoint, {}))
  for tr in (True, False):
    for cache in (False, True):
      for debug in (False, True):
        out.append((f'stream {"train" if tr else "valid"} '
                    f'{"cached" if cache else "uncached"} '
                    f'{"debug" if debug else "full"}', stream,
                    dict(train_split=tr, cache=cache, debug=debug)))
  out.append(('stream real', dealt, {}))
  for p in [(2, 2, 3), (1, 2, 2), (2, 2), (3, 2), (2, 3), (1, 3, 2), (3, 3),
            (2, 2, 2), (2, 1, 3), (1, 4), (4, 1)] + (
                [(2, 2, 2, 2), (3, 2, 2), (2, 3, 3), (4, 3, 2)]
                if tier == 'thorough' else []):
    out.append((f'permutation {p}', multiscale, dict(patches=p)))
  return out
