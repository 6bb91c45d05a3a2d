PROPERTY = 'C30'
EDITS = [('niles/transformer.py', "            model_config=self.processor_config)(x, z_rng)\n",
"            model_config=self.processor_config)(x, jax.random.fold_in(\n                jax.random.PRNGKey(0), x.shape[0]))\n")]
NEEDS = 'two calls of the model with different keys'
BREAKS = 'The latent noise of the closure model is the same on every call.'
DEMO = '''
import jax, numpy as np, ml_collections
from swirl_fem.niles import transformer as tr
m = tr.Model(num_layers=1, num_heads=1, depth=3, width=2, pooling_layers=(1,),
    pooling_kernel=(1, 3), pooling_strides_q=(1, 2),
    initial_kv_pooling_strides=(1, 2), qkv_tile_reps=(2, 1),
    processor_config=ml_collections.FrozenConfigDict(dict(
        num_gridpoints=2, latent_size=4, context_size=1, data_size=4,
        prior_scale=0.5, use_transformer=True, num_layers=1, hidden_size=1,
        num_samples=2, num_sde_layers=1)))
r = np.random.default_rng(0)
x = r.normal(size=(2, 4, 3)).astype('float32')
k = jax.random.split(jax.random.PRNGKey(1), 3)
p = m.init(k[0], x, k[0])
p = jax.tree.map(lambda a: r.normal(size=a.shape).astype(a.dtype) * .3, p)
a, b, c = (np.asarray(m.apply(p, x, q)[0]) for q in (k[1], k[2], k[1]))
print(abs(a - b).max(), abs(a - c).max())
sys.exit(int(np.allclose(a, b, rtol=1e-6, atol=1e-7) or not np.allclose(a, c)))
'''
