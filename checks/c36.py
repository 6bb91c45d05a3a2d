"""C36: training optimises the configured model as configured."""
import numpy as np

from vlib import boot, dse
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import flax.linen as nn
import jax
import jax.numpy as jnp
from checks.c25 import patched
from checks.c30 import F32, agree, tokens
from checks.c31 import Shim
from checks.c35 import Config
from vlib.dse import val, value
from vlib.harness import Unreproduced, compare
from vlib.sym import STATS
from swirl_fem.niles import train


def quiet():
  return (train, 'parameter_overview', Shim(
      train.parameter_overview, log_parameter_overview=lambda *a, **k: None))


class Fixed:
  """A model whose parameters are given."""
  dtype = F32

  def __init__(self, params):
    self.params = params

  def init(self, *a, **k):
    return {'params': self.params}

  def apply(self, *a, **k):
    raise NotImplementedError


def adamw(params, grads, rates, decay, most):
  """AdamW with clipping, from its definition."""
  flat, tree = jax.tree_util.tree_flatten(params)
  mu = [0 * p for p in flat]
  nu = [0 * p for p in flat]
  b1, b2, out = 0.9, 0.95, []
  for i, (g, rate) in enumerate(zip(grads, rates)):
    g = jax.tree_util.tree_leaves(g)
    if most is not None:
      size = jnp.sqrt(sum(jnp.sum(x * x) for x in g))
      g = [jnp.where(size < most, x, x / size * most) for x in g]
    mu = [(1 - b1) * x + b1 * m for x, m in zip(g, mu)]
    nu = [(1 - b2) * (x * x) + b2 * m for x, m in zip(g, nu)]
    t = jnp.int32(i + 1)
    c1, c2 = ((1 - b ** t).astype(F32) for b in (b1, b2))
    flat = [p - rate * (m / c1 / (jnp.sqrt(v / c2) + F32(1e-6)) + decay * p)
            for p, m, v in zip(flat, mu, nu)]
    out += flat
  return out


def optimiser(h, *, clip, steps, shapes):
  h.func('train.create_train_state', 'train.initialized')
  h.bound('one or two steps on up to four parameters in up to three arrays')
  h.assume('real arithmetic; square roots and reciprocals are uninterpreted; '
           'the optimiser library is traced, the model is a stand-in')
  params = {n: tokens(n, *s) for n, s in shapes.items()}
  grads = [{n: tokens(f'g{i}{n}', *s) for n, s in shapes.items()}
           for i in range(steps)]
  rates = tokens('rate', steps)
  decay, most = tokens('decay'), tokens('most')

  def real(params, grads, rates, decay, most):
    conf = Config(weight_decay=decay, grad_clip_norm=most if clip else None,
                  num_elements=2, num_channels=3)
    mod = Fixed(params)
    rate = lambda count: rates[count]
    other = lambda count: rates[count] * 7
    with patched(quiet()):
      st = train.create_train_state(
          rng=jax.random.PRNGKey(0), model=mod, learning_rate_fn=rate,
          updown_learning_rate_fn=other, config=conf)
    out = []
    for g in grads:
      st = st.apply_gradients(grads=g)
      out += jax.tree_util.tree_leaves(st.params)
    return out, st.step

  def ref(params, grads, rates, decay, most):
    # clipping to a norm that is not positive is meaningless
    return adamw(params, grads, [rates[i] for i in range(steps)], decay,
                 most if clip else None), jnp.int32(steps)
  positive = lambda f: lambda p, g, r, d, m: f(p, g, r, d, m * m + F32(.01))
  f, g = positive(real), positive(ref)

  def tiny():
    r = h.nprng
    draw = lambda s, scale: np.asarray(r.uniform(.5, 1., s) * scale, np.float32)
    args = ({n: draw(s, 1.) for n, s in shapes.items()},
            [{n: draw(s, 1e-6) for n, s in shapes.items()}
             for _ in range(steps)], draw((steps,), 1.), draw((), 1.),
            draw((), 1.))
    got, want = (jax.tree_util.tree_leaves(jax.jit(k)(*args)) for k in (f, g))
    return compare([np.asarray(x) for x in got], [np.asarray(x) for x in want],
                   2e-3)
  h.smoke(tiny, times=1)
  agree(h, f, g, (params, grads, rates, decay, most),
        'optimiser')


FIELDS = ('num_layers', 'num_heads', 'depth', 'width', 'use_residuals',
          'freeze_encoder', 'mean_after_decoder', 'processor_config',
          'num_initial_heads', 'pooling_layers', 'pooling_kernel',
          'pooling_strides_q', 'initial_kv_pooling_strides', 'qkv_tile_reps')


FLAGS = ('use_residuals', 'freeze_encoder', 'mean_after_decoder')
SEQUENCES = ('pooling_layers', 'pooling_kernel', 'pooling_strides_q',
             'initial_kv_pooling_strides', 'qkv_tile_reps')


def construction(h):
  """Every option of the configuration reaches the model."""
  h.func('train.create_model')
  h.bound('all values of the options, as integers, flags and pairs')
  syms, cons = {}, []
  for k in FIELDS:
    x, c = dse.ints(k, (2,), 0, 1 if k in FLAGS else 10**6)
    cons += c
    syms[k] = tuple(x) if k in SEQUENCES else x[0]

  def build(v):
    return train.create_model('multiscale_transformer', Config(v))

  def pairs(m, v, k):
    got = getattr(m, k)
    if k not in SEQUENCES:
      return [(got, v[k])]
    return list(zip(got, v[k])) if len(got) == len(v[k]) else [(None, v[k])]

  def numbers(v):
    m = build(v)
    for k in FIELDS:
      if any(a is None or a != b for a, b in pairs(m, v, k)):
        return f'{k} of the model is {getattr(m, k)} instead of {v[k]}'
  h.smoke(lambda: numbers({
      k: i % 2 == 0 if k in FLAGS else (i + 2, i + 3) if k in SEQUENCES
      else i + 2 for i, k in enumerate(FIELDS)}), times=1)

  def run(path):
    m = build(syms)
    for k in FIELDS:
      for a, b in pairs(m, syms, k):
        STATS.obligations += 1
        got = val(a)
        bad = path.proves(got == val(b) if got is not None else False)
        if bad is not None:
          v = {n: tuple(value(bad, x) for x in s) if n in SEQUENCES else
                  bool(value(bad, s)) if n in FLAGS else value(bad, s)
               for n, s in syms.items()}
          d = numbers(v)
          if d is None:
            raise Unreproduced(f'{h.name}: {k}: {v}')
          h.fail(d, v)
  h.sample(paths=dse.explore(run, cons, budget=100), options=len(FIELDS))


class Small(nn.Module):
  """Remembers the shape of its input in its parameters."""
  dtype: type = F32

  @nn.compact
  def __call__(self, x, z_rng, train=False):
    w = self.param('w', nn.initializers.normal(1.), x.shape[1:])
    b = self.param('b', lambda k: jnp.zeros(()) + jax.random.normal(k))
    return w * x + b, {}


def initial(h, *, elements, channels):
  """The initial state has the model's parameters, at step zero."""
  h.func('train.create_train_state', 'train.initialized')
  h.bound('models of 1-3 elements with 1-4 channels; all inputs')
  mod = Small()

  def build():
    with patched(quiet()):
      return train.create_train_state(
          rng=jax.random.PRNGKey(3), model=mod, learning_rate_fn=lambda c: 0.1,
          updown_learning_rate_fn=lambda c: 0.1, config=Config(
              weight_decay=0.1, grad_clip_norm=1., num_elements=elements,
              num_channels=channels))

  def one():
    st = build()
    if int(st.step) != 0:
      return f'initial step {st.step}'
    want = jax.tree_util.tree_map(jnp.shape, mod.init(
        jax.random.PRNGKey(0), jnp.zeros((1, elements, channels)),
        jax.random.PRNGKey(0))['params'])
    got = jax.tree_util.tree_map(jnp.shape, st.params)
    if got != want:
      return f'parameters {got} instead of {want}'
  h.smoke(one, times=1)
  st = build()
  x = tokens('x', 2, elements, channels)
  agree(h, lambda x: st.apply_fn({'params': st.params}, x, None)[0],
        lambda x: st.params['w'] * x + st.params['b'], (x,), 'model')


def harnesses(tier):
  th = tier == 'thorough'
  out = []
  for clip in (True, False):
    for steps in (1, 2):
      for i, s in enumerate(({'a': ()}, {'a': (2,)}, {'a': (2,), 'b': (1, 1)})):
        if steps * len(s) < 4 or th:
          out.append((f'optimiser {i} steps={steps} clip={clip}', optimiser,
                      dict(clip=clip, steps=steps, shapes=s)))
  out.append(('construction', construction, {}))
  for e, c in ((1, 1), (2, 3), (3, 4)):
    out.append((f'initial {e} {c}', initial, dict(elements=e, channels=c)))
  return out
