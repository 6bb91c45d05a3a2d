"""C30: the closure model is the architecture it documents."""
import numpy as np

from vlib import boot, jsym, uf
boot.enable_x64()
# pylint: disable=g-import-not-at-top
import flax.linen as nn
import jax
import jax.numpy as jnp
import ml_collections
from vlib import sym
from vlib.harness import Rand, compare, concretise
from vlib.jsym import Leaf
from checks.c31 import Shim
from swirl_fem.niles import transformer as tr

F32 = jnp.float32


# ---- reference: plain functions of parameters -----------------------------


def dense(p, x):
  y = x @ p['kernel']
  return y + p['bias'] if 'bias' in p else y


def norm(p, x):
  return nn.LayerNorm(use_bias='bias' in p).apply({'params': p}, x)


def feed_forward(p, x, hidden):
  sizes(p, (hidden, None))
  return dense(p['Dense_1'], nn.gelu(dense(p['Dense_0'], x)))


def sizes(p, want):
  """Layers of a feed-forward network; None: not specified."""
  got = tuple(p[f'Dense_{i}']['kernel'].shape[1] for i in range(len(p)))
  if len(got) != len(want) or any(w not in (None, g) for g, w in zip(got, want)):
    raise ValueError(f'layers of sizes {got} instead of {want}')


def heads(x, n):
  return x.reshape(x.shape[:-1] + (n, x.shape[-1] // n))


def attend(q, k, v):
  """q, k, v (batch, tokens, heads, size)."""
  q = q / jnp.sqrt(F32(q.shape[-1]))
  w = jax.nn.softmax(jnp.einsum('bqhd,bkhd->bhqk', q, k))
  return jnp.einsum('bhqk,bkhd->bqhd', w, v)


def pool(x, window, stride, mode):
  """Pools the tokens of (batch, tokens, features); centred windows."""
  (k, s), n = (window[-1], stride[-1]), x.shape[1]
  m = -(-n // s)
  total = max((m - 1) * s + k - n, 0)
  lo = total // 2
  rows = []
  for i in range(m):
    js = [j for j in range(i * s - lo, i * s - lo + k) if 0 <= j < n]
    r = x[:, js[0]]
    for j in js[1:]:
      r = r + x[:, j] if mode == 'avg' else jnp.maximum(r, x[:, j])
    rows.append(r / k if mode == 'avg' else r)
  return jnp.stack(rows, 1)


def positions(p, x):
  if p['pos_embedding'].shape[1:] != x.shape[1:]:
    raise ValueError(f"positions {p['pos_embedding'].shape} for {x.shape}")
  return x + p['pos_embedding'][0]


def ones(t):
  return len(t) == 0 or np.prod(t) == 1


def encoder_block(p, x, *, out_dim, n, kq, kkv, sq, skv):
  y = norm(p['LayerNorm_0'], x)
  a = p['MultiScaleAttentionDownSample_0']
  pooled = lambda name, k, s: (
      dense(a[name], y) if ones(k) else pool(dense(a[name], y), k, s, 'avg'))
  q = heads(pooled('query', kq, sq), n)
  k, v = (heads(pooled(m, kkv, skv), n) for m in ('key', 'value'))
  z = attend(q, k, v) + q
  z = jnp.einsum('bqhd,hdf->bqf', z, a['out']['kernel'])
  if 'bias' in a['out']:
    z = z + a['out']['bias']
  if not ones(sq):
    x = pool(x, [s + 1 if s > 1 else s for s in sq], sq, 'max')
  x = z + x
  y = norm(p['LayerNorm_1'], x)
  z = feed_forward(p['MlpBlock_0'], y, 4 * x.shape[-1])
  if out_dim != x.shape[-1]:
    x = dense(p['project_skip'], y)
  return z + x


def decoder_block(p, x, *, out_dim, n, reps):
  rep = int(np.prod(reps))
  tile = lambda x: jnp.concatenate([x] * rep, axis=1)
  y = norm(p['LayerNorm_0'], x)
  a = p['MultiScaleAttentionUpsample_0']
  q, k, v = (heads(tile(dense(a[m], y)), n) for m in ('query', 'key', 'value'))
  z = attend(q, k, v) + q
  z = jnp.einsum('bqhd,hdf->bqf', z, a['out']['kernel'])
  if 'bias' in a['out']:
    z = z + a['out']['bias']
  x = z + tile(x)
  y = norm(p['LayerNorm_1'], x)
  z = feed_forward(p['MlpBlock_0'], y, 4 * x.shape[-1])
  if out_dim != x.shape[-1]:
    x = dense(p['project_skip'], y)
  return z + x


def encoder(p, x, c):
  skips, n, skv = {}, c['num_initial_heads'], list(c['initial_kv_pooling_strides'])
  for i in range(c['depth']):
    sq, kq = (1,) * len(skv), c['pooling_kernel']
    out = x.shape[-1] * (2 if i + 1 in c['pooling_layers'] else 1)
    if i in c['pooling_layers']:
      n *= 2
      skv = [max(s // 2, 1) for s in skv]
      sq = c['pooling_strides_q']
      skips[i] = x
    elif not c['pool_q_every_layer']:
      kq = (1,) * len(skv)
    x = encoder_block(p[f'block_{i}'], x, out_dim=out, n=n, kq=kq,
                      kkv=c['pooling_kernel'], sq=sq, skv=skv)
  return norm(p['encoder_norm'], x), skips


def decoder(p, x, skips, c):
  for i in reversed(range(c['depth'])):
    out = x.shape[-1] // (2 if i + 1 in c['pooling_layers'] else 1)
    reps = c['qkv_tile_reps'] if i in c['pooling_layers'] else (1,)
    x = decoder_block(p[f'decoder_block_{i}'], x, out_dim=out,
                      n=x.shape[-1] // c['width'], reps=reps)
    if i in c['pooling_layers'] and c['use_residuals']:
      x = x + skips[i]
  return norm(p['decoder_norm'], x)


def mlp(p, x, act, last, layers):
  sizes(p, layers)
  n = len(p)
  for i in range(n):
    x = dense(p[f'Dense_{i}'], x)
    x = act(x) if i < n - 1 else last(x)
  return x


def plain_block(p, x, hidden):
  """Pre-norm self attention and feed-forward, both residual."""
  y = norm(p['LayerNorm_0'], x)
  a = p['MultiHeadDotProductAttention_0']
  q, k, v = (jnp.einsum('btf,fhd->bthd', y, a[m]['kernel']) + a[m]['bias']
             for m in ('query', 'key', 'value'))
  z = attend(q, k, v)
  x = x + (jnp.einsum('bqhd,hdf->bqf', z, a['out']['kernel']) + a['out']['bias'])
  return x + feed_forward(p['MlpBlock_0'], norm(p['LayerNorm_1'], x), hidden)


def ratio(a, b):
  """a / b, zero where b vanishes."""
  return jnp.where(jnp.isclose(b, jnp.zeros_like(b)), jnp.zeros_like(a), a / b)


def rate(post, prior, sigma):
  return jnp.sum(ratio(post - prior, sigma) ** 2) / 2


def dynamics(p, state, t, dw, ctx, layers, size, hidden):
  """Drift and diffusion of the tokens and of the divergence."""
  z = state[:-1]
  x = jnp.concatenate([z.reshape(-1, size), jnp.full((1, size), t)])
  both = jnp.concatenate([x, ctx.reshape(-1, size)])
  def drift(x, name):
    x = x[None]
    for i in range(layers):
      x = plain_block(p[f'{name}_dynamics_block_{i}'], x, size)
    x = dense(p[f'{name}_decoded_patches'], norm(p[f'{name}_dynamics_norm'], x))
    return x[0].reshape(-1)[:len(z)]
  post, prior = drift(both, 'posterior_drift'), drift(x, 'prior_drift')
  sigma = mlp(p['diffusion_mlp'], z[:, None], jnp.tanh, jnp.exp,
              (hidden,) * layers + (1,))[:, 0]
  return (jnp.append(post, rate(post, prior, sigma)),
          jnp.append(dw * sigma, jnp.zeros((), F32)))


def coordinate_diffusion(p, z, layers):
  return jnp.stack([mlp(p[f'mlps_{i}'], z[i][None], nn.gelu, jnp.exp, layers)[0]
                    for i in range(len(z))])


def variational(p, state, t, dw, ctx, prior_, post_, diff):
  z = state[:-1]
  post = mlp(p['post_drift_mlp']['mlp'], jnp.concatenate([z, ctx]), nn.gelu, nn.tanh,
             post_)
  prior = mlp(p['prior_drift_mlp']['mlp'], z, nn.gelu, nn.tanh, prior_)
  sigma = coordinate_diffusion(p['diffusion_mlp'], z, diff)
  return jnp.append(post, rate(post, prior, sigma)), sigma


def integrate(f, y, dw):
  """Euler-Heun over the unit interval."""
  n = len(dw)
  for i in range(n):
    t = np.float32(i / n)
    a, b = f(y, t, dw[i])
    _, c = f(y + b, np.float32((i + 1) / n), dw[i])
    y = y + a * np.float32(1 / n) + (b + c) / 2
  return y


def latent(p, x, eps, dw, c):
  """Samples of the latent tokens at the end, and the two divergences.

  x (batch, tokens, size), eps (samples, batch, tokens * size),
  dw (batch * samples * tokens * size, steps)."""
  s, scale = c['num_samples'], np.float32(c['prior_scale'])
  b, n, size = x.shape
  z = x.reshape(b, -1)
  # (which draw serves which trajectory, step and number does not matter)
  dw = dw.T.reshape(b, s, -1, n * size)
  ends, kl = [], []
  for i in range(b):
    for j in range(s):
      z0 = z[i] + scale * eps[j, i]
      f = lambda y, t, w: dynamics(p, y, t, w, z0, c['num_sde_layers'], size, None)
      y = integrate(f, jnp.append(z0, jnp.zeros((), F32)), dw[i, j])
      ends.append(y[:-1])
      kl.append(y[-1])
  ends = jnp.stack(ends).reshape(b, s, n, size)
  kl = jnp.stack(kl).reshape(b, s)
  return ends, kl, jnp.sum((z / scale) ** 2, axis=-1) / 2


def ode(p, x, c):
  """The latent tokens at the end of the path without noise, as one sample."""
  b, n, size = x.shape
  ends = []
  for z in x.reshape(b, -1):
    f = lambda y, t, w: dynamics(p, y, t, w, z, c['num_sde_layers'], size, None)
    y = integrate(f, jnp.append(z, jnp.zeros((), F32)),
                  jnp.zeros((c['num_gridpoints'], n * size), F32))
    ends.append(y[:-1])
  return jnp.stack(ends).reshape(b, 1, n, size)


# ---- harness helpers ------------------------------------------------------


def setting(h, *names):
  h.func(*('transformer.' + n for n in names))
  h.assume('real arithmetic; exponentials, square roots, hyperbolic tangents, '
           'reciprocals and products of sums are uninterpreted functions of '
           'their canonical arguments; flax layer normalisation, softmax and '
           'gelu are the library\'s; counterexamples are replayed in single '
           'precision with tolerance 2e-3')


def symbols(tree, prefix):
  """A tree of symbols shaped like a tree of arrays."""
  paths, treedef = jax.tree_util.tree_flatten_with_path(tree)
  return jax.tree_util.tree_unflatten(treedef, [
      Leaf(jsym.poly_vars(prefix + ''.join(
          '.' + str(getattr(k, 'key', k)) for k in path), x.shape), F32)
      for path, x in paths])


def conc(tree, env):
  return jax.tree_util.tree_map(
      lambda l: jnp.asarray(concretise(l.arr, env), F32) if isinstance(l, Leaf)
      else l, tree, is_leaf=lambda l: isinstance(l, Leaf))


def params_of(h, mod, *args):
  """Shapes of the parameters of a module, which must initialise."""
  spec = jax.tree_util.tree_map(
      lambda l: jnp.zeros(l.arr.shape, F32) if isinstance(l, Leaf) else l, args,
      is_leaf=lambda l: isinstance(l, Leaf))
  try:
    v = mod.init(jax.random.PRNGKey(0), *spec)
  except Exception as e:  # pylint: disable=broad-except
    h.fail(f'initialising raises {type(e).__name__}: {str(e)[:200]}')
  return symbols(v['params'], 'p')


def agree(h, f, ref, args, label, tol=2e-3):
  """The real f against the reference for all parameters and inputs."""
  formula = ref
  def ref(*a):
    try:
      return formula(*a)
    except (KeyError, StopIteration) as e:
      raise sym.Unsupported(f'parameters are named differently: {e}') from e
  def run(env):
    a = conc(args, env)
    got, want = (jax.tree_util.tree_leaves(jax.jit(g)(*a)) for g in (f, ref))
    return compare([np.asarray(g) for g in got], [np.asarray(w) for w in want],
                   tol)
  h.smoke(lambda: (lambda e: (run(e), dict(e)))(Rand(h.nprng, None, 1.0)))
  uf.clear()
  sym.set_exact(True)
  try:
    got = jax.tree_util.tree_leaves(uf.call(f, *args))
    want = jax.tree_util.tree_leaves(uf.call(ref, *args))
    uf.equal(h, got, want, run, label)
  finally:
    sym.set_exact(False)
  return got


def tokens(name, *shape):
  return Leaf(jsym.poly_vars(name, shape), F32)


# ---- harnesses ------------------------------------------------------------


def pooling(h, *, n, k, s, mode):
  setting(h, 'attention_pooling')
  h.bound('pooling of 1-7 tokens with windows of 1-5 and strides of 1-4, by '
          'averages (padding counts) and maxima')
  f = lambda x: tr.attention_pooling(x, (1, k), (1, s), mode, 2)
  ref = lambda x: heads(x if k == 1 or mode == 'none' else
                        pool(x, (1, k), (1, s), mode), 2)
  agree(h, f, ref, (tokens('x', 2, n, 4),), f'{mode} pooling')


def block(h, *, kind, n, width, out, heads_, kq=1, kkv=1, sq=1, skv=1, bias=False):
  setting(h, 'EncoderBlock', 'DecoderBlock', 'MultiScaleAttentionDownSample',
          'MultiScaleAttentionUpsample', 'MlpBlock')
  h.bound('blocks on 2 samples of 2-4 tokens with 2-4 features, 1-2 heads')
  if kind == 'encoder':
    mod = tr.EncoderBlock(out_dim=out, num_heads=heads_, use_bias=bias,
                          pooling_kernel_q=(1, kq), pooling_kernel_kv=(1, kkv),
                          pooling_stride_q=(1, sq), pooling_stride_kv=(1, skv))
    ref = lambda p, x: encoder_block(p, x, out_dim=out, n=heads_, kq=(1, kq),
                                     kkv=(1, kkv), sq=(1, sq), skv=(1, skv))
  else:
    mod = tr.DecoderBlock(out_dim=out, num_heads=heads_, use_bias=bias,
                          qkv_tile_reps=(kq, 1))
    ref = lambda p, x: decoder_block(p, x, out_dim=out, n=heads_, reps=(kq, 1))
  x = tokens('x', 2, n, width)
  agree(h, lambda p, x: mod.apply({'params': p}, x), ref,
        (params_of(h, mod, x), x), f'{kind} block')


def independent(h, f, args, which, run_args, label):
  """Results for the first sample are those with another second sample."""
  other = jax.tree_util.tree_map(lambda l: l, args[which])
  arr = other.arr.copy()
  arr[1] = jsym.poly_vars('other', arr.shape[1:])
  alt = list(args)
  alt[which] = Leaf(arr, F32)
  g = lambda *a: [r[0] for r in jax.tree_util.tree_leaves(f(*a))]
  def run(env):
    return compare([np.asarray(v) for v in g(*conc(args, env))],
                   [np.asarray(v) for v in g(*conc(tuple(alt), env))], 2e-3)
  uf.clear()
  sym.set_exact(True)
  try:
    uf.equal(h, uf.call(g, *args), uf.call(g, *alt), run, label)
  finally:
    sym.set_exact(False)


def tower(h, *, part, n, c):
  setting(h, 'MultiscaleEncoder', 'MultiscaleDecoder', 'Model')
  h.bound('encoders, decoders and models of up to 4 blocks, 1-2 pooling levels, '
          '2-4 tokens, 2 features at the top level')
  c = dict(BASE, **c)
  x = tokens('x', 2, n, c['width'])
  kw = {k: c[k] for k in ('depth', 'width', 'pooling_layers', 'use_bias')}
  ekw = {k: c[k] for k in ('pooling_kernel', 'pooling_strides_q',
                           'initial_kv_pooling_strides', 'num_initial_heads',
                           'pool_q_every_layer')}
  enc = tr.MultiscaleEncoder(**kw, **ekw)
  if part == 'encoder':
    f = lambda p, x: enc.apply({'params': p}, x)
    agree(h, f, lambda p, x: encoder(p, x, c), (params_of(h, enc, x), x), 'encoder')
    return
  dec = tr.MultiscaleDecoder(
      **kw, qkv_tile_reps=c['qkv_tile_reps'], use_residuals=c['use_residuals'],
      num_initial_heads=c['num_initial_heads'] * 2 ** len(c['pooling_layers']))
  pe = params_of(h, enc, x)
  shapes = jax.eval_shape(lambda p, x: encoder(p, x, c), *conc((pe, x), Rand(
      h.nprng, None, 1.0)))
  y, skips = symbols(shapes[0], 'y'), symbols(shapes[1], 's')
  f = lambda p, y, s: dec.apply({'params': p}, y, s)
  agree(h, f, lambda p, y, s: decoder(p, y, s, c), (params_of(h, dec, y, skips), y, skips),
        'decoder')


BASE = dict(depth=3, width=2, pooling_layers=(1,), pooling_kernel=(1, 3),
            pooling_strides_q=(1, 2), initial_kv_pooling_strides=(1, 2),
            qkv_tile_reps=(2, 1), num_initial_heads=1, use_residuals=True,
            use_bias=False, pool_q_every_layer=True, mean_after_decoder=False)
SDE = dict(num_gridpoints=2, latent_size=4, context_size=1, data_size=4,
           prior_scale=0.5, use_transformer=True, num_layers=1, hidden_size=1,
           num_samples=2, num_sde_layers=1)


class Draws:
  """Replaces the random draws of the latent SDE by given numbers."""

  def __init__(self, eps, dw):
    self.eps, self.dw = eps, dw

  def __enter__(self):
    self.old = tr.jax, tr.brownian_path, jax.random.normal
    self.used = set()
    real_split, real_normal = jax.random.split, jax.random.normal

    def split(key, num=2):
      return (jnp.arange(num) if num == self.dw.shape[0] else
              real_split(key, num))

    def path(i, n, dtype=F32):
      if self.dw.shape[1] != n or jnp.shape(i):
        raise sym.Unsupported(f'path of {n} instead of {self.dw.shape}')
      self.used.add('dw')
      return self.dw[i]

    def normal(key, shape=(), dtype=F32, **kw):
      if tuple(shape) != self.eps.shape:     # (initialisers: shapes only)
        return real_normal(key, shape, dtype, **kw)
      self.used.add('eps')
      return self.eps.astype(dtype)
    tr.jax = Shim(jax, random=Shim(jax.random, split=split))
    tr.brownian_path = path
    jax.random.normal = normal

  def __exit__(self, kind, e, tb):
    tr.jax, tr.brownian_path, jax.random.normal = self.old
    if kind is None and self.used != {'eps', 'dw'}:
      raise sym.Unsupported('draws are made in another way')


def drawn(f, eps, dw):
  """f with the draws replaced; draws made in another way are unsupported."""
  try:
    with Draws(eps, dw):
      return f()
  except sym.Unsupported:
    raise
  except Exception as e:
    f()                  # fails as well unless the stand-ins are to blame
    raise sym.Unsupported(f'draws: {type(e).__name__}: {e}') from e


def keyed(h, mod, x, params, flags):
  """The key decides the noise: of the start, of the paths."""
  env = Rand(h.nprng, None, 0.5)
  x, p = conc((x, params), env)
  run = lambda k, p: [np.asarray(v) for v in jax.tree_util.tree_leaves(mod.apply(
      {'params': p}, x, jax.random.PRNGKey(k), **flags))]
  a, b, c = (run(k, p) for k in (1, 2, 1))
  if compare(a, c, 1e-5) is not None:
    return 'the same key gives different results'
  if np.allclose(a[0], b[0], rtol=1e-6, atol=1e-7):
    return 'different keys give the same result'
  return None


def model(h, *, n, c, sde=None, claim='formula', **flags):
  """flags: options of the call (train=...), which change nothing."""
  setting(h, 'Model', 'AddPosEmbs', 'LatentSDE', 'Dynamics')
  h.bound('models with a latent SDE of 2 samples or an ODE, 1-2 steps')
  c = dict(BASE, **c)
  pc = dict(SDE, **(sde or {'num_samples': 0}))
  mod = tr.Model(num_layers=1, num_heads=1, processor_config=ml_collections.
                 FrozenConfigDict(pc), **c)
  x = tokens('x', 2, n, 3)
  rng = jax.random.PRNGKey(7)
  params = params_of(h, mod, x, rng)
  args = (params, x)
  noisy = sde and pc['num_samples'] > 1      # one sample: an ODE
  if noisy:
    low = n // int(np.prod(c['qkv_tile_reps'])) ** len(c['pooling_layers'])
    args += (tokens('e', pc['num_samples'], 2, low * pc['latent_size']),
             tokens('w', 2 * pc['num_samples'] * low * pc['latent_size'],
                    pc['num_gridpoints']))

  def f(p, x, eps=None, dw=None):
    apply = lambda: mod.apply({'params': p}, x, rng, **flags)
    y, aux = drawn(apply, eps, dw) if noisy else apply()
    return y, aux['kl_path'], aux['kl_q0']

  def ref(p, x, eps=None, dw=None):
    x = positions(p['encoder_posembed'], dense(p['embedding'], x))
    zero = jnp.zeros(x.shape[0], F32)
    path = start = zero
    if c['depth']:
      y, skips = encoder(p['multiscale_encoder'], x, c)
      dec = lambda y: decoder(p['multiscale_decoder'], y, skips, c)
      if sde:
        q = next(v for k, v in p['LatentSDE_0'].items() if 'Dynamics' in k)
        if noisy:
          y, path, start = latent(q, y, eps, dw, pc)
          path = path.mean(-1)
        else:
          y = ode(q, y, pc)
        x = (jnp.mean(jnp.stack([dec(y[:, j]) for j in range(y.shape[1])]), 0)
             if c['mean_after_decoder'] else dec(jnp.mean(y, axis=1)))
      else:
        x = dec(y)
    return dense(p['decoded_patches'], x), path, start

  if claim == 'independent':
    independent(h, f, args, 1, None, 'batch')
    return
  if noisy:
    h.smoke(lambda: (keyed(h, mod, x, params, flags), {}), 1)
  got = agree(h, f, ref, args, 'model')
  if noisy:
    def run(env):
      with np.errstate(all='ignore'):
        _, path, start = f(*conc(args, env))
      low = min(np.min(path), np.min(start))
      return f'divergence {low}' if low < -1e-6 else None
    sym.set_exact(True)
    try:
      uf.nonnegative(h, [e for g in got[1:] for e in np.ravel(g)], run,
                     label='divergence')
    finally:
      sym.set_exact(False)


def parts(h, *, what, **kw):
  """The pieces of the latent SDE."""
  h.bound('latent states of 2-4 numbers, contexts of 1-2 tokens or numbers, 1-2 '
          'layers, hidden sizes 1-2')
  z = tokens('z', 3)
  if what == 'positions':
    setting(h, 'AddPosEmbs')
    mod, args = tr.AddPosEmbs(), (tokens('x', 2, 3, 2),)
    ref = positions
  elif what == 'diffusion':
    setting(h, 'Diffusion', 'MLP')
    mod, args = tr.Diffusion(features=kw['features'], ndim=3), (z,)
    ref = lambda p, z: coordinate_diffusion(p, z, kw['features'])
  elif what == 'drift':
    setting(h, 'Drift', 'MLP')
    mod, args = tr.Drift(features=(2, 3)), (z,) + (
        (tokens('c', 2),) if kw['context'] else ())
    ref = lambda p, z, *c: mlp(p['mlp'], jnp.concatenate([z, *c]), nn.gelu,
                              jnp.tanh, (2, 3))
  elif what == 'block':
    setting(h, 'Encoder1DBlock', 'MlpBlock')
    mod = tr.Encoder1DBlock(mlp_dim=3, num_heads=kw['heads_'])
    args = (tokens('x', 2, 3, 2 * kw['heads_']),)
    ref = lambda p, x: plain_block(p, x, 3)
  elif what == 'variational':
    setting(h, 'VariationalDriftDiffusion')
    mod = tr.VariationalDriftDiffusion((2, 2), (1, 2), (1, 1, 1))
    args = (tokens('s', 3), tokens('t'), tokens('w', 2), tokens('c', 2))
    # (how the noise enters is left open)
    f = lambda p, *a: mod.apply({'params': p}, *a)[0]
    ref = lambda p, *a: variational(p, *a, (2, 2), (1, 2), (1, 1, 1))[0]
  else:
    setting(h, 'Dynamics', 'Encoder1DBlock', 'MLP')
    mod = tr.Dynamics(num_layers=kw['layers'], latent_size=2, hidden_size=3)
    n = 2 * kw['n']
    args = (tokens('s', n + 1), tokens('t'), tokens('w', n), tokens('c', n))
    ref = lambda p, s, t, w, c: dynamics(p, s, t, w, c, kw['layers'], 2, 3)
  if what != 'variational':
    f = lambda p, *a: mod.apply({'params': p}, *a)
  params = params_of(h, mod, *args)
  got = agree(h, f, ref, (params,) + args, what)
  sym.set_exact(True)
  try:
    if what == 'diffusion' or what == 'dynamics':
      def run(env):
        r = f(*conc((params,) + args, env))
        if what == 'dynamics':
          low = float(r[0][-1])
        else:
          low = np.min(r)
        return f'{what}: {low}' if low < 0 else None
      uf.nonnegative(h, [got[0][-1]] if what == 'dynamics' else list(got[0]),
                     run, label=what)
  finally:
    sym.set_exact(False)
  if what in ('dynamics', 'variational'):
    # the accumulated divergence influences nothing, the context no prior
    sub(h, f, (params,) + args, what)


def sub(h, f, args, what):
  """What the rates depend on."""
  alt = list(args)
  s = args[1].arr.copy()
  s[-1] = jsym.poly_vars('other', ())[()]
  alt[1] = Leaf(s, F32)
  def run(env):
    a, b = (jax.tree_util.tree_leaves(f(*conc(tuple(v), env)))
            for v in (args, alt))
    return compare([np.asarray(v) for v in a], [np.asarray(v) for v in b], 2e-3)
  uf.clear()
  sym.set_exact(True)
  try:
    a, b = (jax.tree_util.tree_leaves(uf.call(f, *v)) for v in (args, alt))
    uf.equal(h, a, b, run, f'{what}: accumulated divergence')
  finally:
    sym.set_exact(False)


def symmetric(h, *, n, heads_, perm):
  """A plain block treats tokens alike."""
  setting(h, 'Encoder1DBlock')
  h.bound('permutations of 3-4 tokens')
  mod = tr.Encoder1DBlock(mlp_dim=2, num_heads=heads_)
  x = tokens('x', 2, n, 2 * heads_)
  p = params_of(h, mod, x)
  perm = np.array(perm)
  agree(h, lambda p, x: mod.apply({'params': p}, x[:, perm]),
        lambda p, x: mod.apply({'params': p}, x)[:, perm], (p, x), 'permutation')


def network(h, *, features, steps, batch, **c):
  """The latent SDE of vectors: encoder, path, decoder, divergences."""
  setting(h, 'LatentSDE', 'VariationalDriftDiffusion', 'Drift', 'Diffusion', 'MLP')
  h.bound('latent SDE of vectors: 1-2 samples of the batch, 1-2 steps')
  pc = dict(SDE, use_transformer=False, num_samples=1, latent_size=2, data_size=2,
            num_gridpoints=steps, hidden_size=features, **c)
  mod = tr.LatentSDE(model_config=ml_collections.FrozenConfigDict(pc))
  x = tokens('x', batch, 2)
  rng = jax.random.PRNGKey(5)
  params = params_of(h, mod, x, rng)
  scale = np.float32(pc['prior_scale'])

  def f(p, x):
    y, aux = mod.apply({'params': p}, x, rng)
    return y, aux['kl_path'], aux['kl_q0']

  def ref(p, x):
    hid = (features,) * pc['num_layers']
    e = mlp(p['sde_encoder_mlp'], x, nn.gelu, nn.gelu, hid + (5,))
    mean, std, ctx = e[:, :2], jnp.exp(e[:, 2:4]), e[:, 4:]
    q = next(v for k, v in p.items() if k.startswith('sde_net'))
    ends, kl = [], []
    for i in range(batch):
      def g(y, t, w, i=i):
        sde = (features,) * pc['num_sde_layers']
        d, _ = variational(q, y, t, w, ctx[i], sde + (2,), (features, 2), sde + (1,))
        return d, jnp.zeros_like(d)
      y = integrate(g, jnp.append(mean[i], jnp.zeros((), F32)), np.zeros(steps))
      ends.append(y[:2])
      kl.append(y[2])
    out = mlp(p['sde_decoder_mlp'], jnp.stack(ends), nn.gelu, nn.gelu, hid + (2,))
    start = jnp.sum((std / scale) ** 2 / 2 + (mean / scale) ** 2 / 2 - .5 -
                    jnp.log(std) + jnp.log(scale), -1)
    return out[:, None], jnp.stack(kl), start
  agree(h, f, ref, (params, x), 'network')


def harnesses(tier):
  out = []
  def add(fn, **kw):
    out.append((f'{fn.__name__} ' + ' '.join(map(str, kw.values())), fn, kw))
  for n, k, s in ((1, 3, 1), (2, 3, 1), (3, 3, 2), (4, 3, 2), (5, 5, 4), (7, 2, 3),
                  (4, 1, 1)):
    for mode in ('avg', 'max'):
      add(pooling, n=n, k=k, s=s, mode=mode)
  add(block, kind='encoder', n=2, width=2, out=2, heads_=1)
  add(block, kind='encoder', n=4, width=4, out=8, heads_=2, kq=3, kkv=3, sq=2, skv=2)
  add(block, kind='decoder', n=2, width=4, out=2, heads_=2, kq=2)
  add(tower, part='encoder', n=4, c={})
  add(tower, part='decoder', n=4, c={})
  add(model, n=4, c={})
  add(model, n=4, c={}, claim='independent')
  add(model, n=2, c=dict(depth=2), sde=dict(num_gridpoints=1))
  add(parts, what='positions')
  for fe in ((1,), (2, 1), (2, 2, 1)):
    add(parts, what='diffusion', features=fe)
  add(parts, what='drift', context=False)
  add(parts, what='drift', context=True)
  add(parts, what='block', heads_=1)
  add(parts, what='block', heads_=2)
  add(parts, what='variational')
  add(parts, what='dynamics', layers=1, n=1)
  add(parts, what='dynamics', layers=2, n=2)
  add(symmetric, n=3, heads_=1, perm=(2, 0, 1))
  add(symmetric, n=4, heads_=2, perm=(1, 0, 3, 2))
  add(network, features=2, steps=2, batch=2)
  add(network, features=1, steps=1, batch=1, num_layers=2, num_sde_layers=2)
  two = dict(depth=4, pooling_layers=(1, 3), initial_kv_pooling_strides=(1, 4))
  add(tower, part='encoder', n=4, c=two)
  add(tower, part='decoder', n=4, c=two)
  add(tower, part='encoder', n=4, c=dict(use_bias=True, pool_q_every_layer=False))
  add(tower, part='decoder', n=4, c=dict(use_bias=True, use_residuals=False))
  add(block, kind='encoder', n=3, width=2, out=2, heads_=1, kq=3, kkv=3, skv=2,
      bias=True)
  add(block, kind='decoder', n=2, width=2, out=2, heads_=1, kq=1, bias=True)
  add(model, n=4, c=dict(depth=0))
  add(model, n=2, c=dict(depth=2, use_residuals=False, use_bias=True,
                         pool_q_every_layer=False))
  add(model, n=2, c=dict(depth=2, mean_after_decoder=True), sde=dict(num_gridpoints=2))
  add(model, n=2, c=dict(depth=2), sde=dict(num_gridpoints=1), claim='independent')
  ode_ = dict(num_gridpoints=2, num_samples=1)
  add(model, n=2, c=dict(depth=2), sde=ode_)
  add(model, n=4, c=dict(depth=2, mean_after_decoder=True), sde=ode_, train=True)
  add(model, n=2, c=dict(depth=2), train=False)
  if tier == 'thorough':
    add(model, n=4, c=dict(depth=2), sde=dict(num_gridpoints=2, num_sde_layers=2))
    add(model, n=4, c=two)
    add(model, n=4, c=dict(depth=2), sde=dict(num_gridpoints=3, num_samples=3))
    add(network, features=2, steps=4, batch=3)
    add(block, kind='encoder', n=8, width=4, out=8, heads_=4, kq=5, kkv=5, sq=4, skv=4)
    add(parts, what='dynamics', layers=3, n=4)
  return out
