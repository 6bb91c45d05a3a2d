"""Process set-up shared by every check.

Checks run in the repository's own interpreter (/opt/venv) so that the real
code is imported from /repo's working tree; the SMT bindings come from the
verification tool environment, appended last so that they shadow nothing.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SWIRL_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_env(num_devices=1):
  os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
  os.environ['TF_ENABLE_ONEDNN_OPTS'] = '0'
  os.environ['ABSL_MIN_LOG_LEVEL'] = '3'
  os.environ['JAX_PLATFORMS'] = 'cpu'
  os.environ['CUDA_VISIBLE_DEVICES'] = ''
  os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
  os.environ['NO_GCE_CHECK'] = 'true'
  os.environ['TFDS_DATA_DIR'] = '/nonexistent'
  os.environ.pop('JAX_ENABLE_X64', None)
  os.environ['XLA_FLAGS'] = (
      f'--xla_force_host_platform_device_count={num_devices}')
  sys.dont_write_bytecode = True
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)


# Host devices a property's workers need, and how many workers to start.
DEVICES = {'C19': 8, 'C20': 8, 'C11': 2, 'C05': 8, 'C07': 8, 'C24': 8, 'C06': 1, 'C18': 17, 'C35': 2}
WORKERS = {}


def enable_x64():
  """Exact-arithmetic properties are studied with double precision constants."""
  import jax
  jax.config.update('jax_enable_x64', True)
