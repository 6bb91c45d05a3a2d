PROPERTY = 'C27'
EDITS = [('niles/train.py', "      decay_steps=cosine_epochs * steps_per_epoch)\n",
"      decay_steps=max(cosine_epochs * steps_per_epoch, 1000))\n")]
NEEDS = 'a run with fewer than 1000 steps after the warm-up'
BREAKS = 'Short runs end at a nonzero learning rate.'
DEMO = '''
import ml_collections
from swirl_fem.niles.train import create_learning_rate_fn
c = ml_collections.ConfigDict(dict(warmup_epochs=1, num_epochs=5))
v = float(create_learning_rate_fn(c, 1., 10)(50))
print(v)
sys.exit(int(v > 1e-6))
'''
