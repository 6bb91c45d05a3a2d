PROPERTY = 'C35'
EDITS = [('niles/train.py', "    if (step + 1) % steps_per_checkpoint == 0 or step + 1 == num_steps:\n",
"    if ((step + 1 - step_offset) % steps_per_checkpoint == 0\n        or step + 1 == num_steps):\n")]
NEEDS = 'a run resumed from a checkpoint that is not at a multiple of the checkpoint period'
BREAKS = 'Resumed runs save checkpoints at other steps than those that complete a period.'
DEMO = '''
import numpy as np, tempfile, os, shutil, itertools, ml_collections, optax
import jax.numpy as jnp, tensorflow as tf, tensorflow_datasets as tfds
from flax.training import train_state
from swirl_fem.niles import train, input_pipeline as ip
from swirl_fem.niles.config import niles
ip.NUM_SPLIT_EXAMPLES = {tfds.Split.TRAIN: 24 * 6, tfds.Split.VALIDATION: 4 * 9}
ip.create_split = lambda batch_size, train, config: (
    dict(t=tf.zeros((batch_size, 2))) for _ in itertools.count())
train.create_model = lambda *a, **k: None
train.create_train_state = lambda *a, **k: train_state.TrainState.create(
    apply_fn=None, params=dict(w=jnp.zeros(2)), tx=optax.sgd(1.))
train.train_step = lambda state, batch, **k: (
    state.replace(step=state.step + 1), dict(loss=0.))
train.transfer_perm = lambda *a: np.zeros(1)
place = tempfile.mkdtemp()
def run(n):
  c = niles.get_config().to_dict()
  c.update(order=2, element_grid_size=2, batch_size=24, train_window_size=5,
           train_window_stride=2, num_train_steps=n, checkpoint_epochs=2,
           eval_every_epochs=1000, log_every_steps=0, debug=False)
  train.train_and_evaluate(ml_collections.FrozenConfigDict(c), place)
try:
  run(3)
  run(7)
  got = sorted(int(f.split('_')[1]) for f in os.listdir(place)
               if f.startswith('checkpoint_'))
finally:
  shutil.rmtree(place)
print(got)
sys.exit(int(got != [2, 3, 4, 6, 7]))
'''
