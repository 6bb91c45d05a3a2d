PROPERTY = 'C25'
EDITS = [('niles/input_pipeline.py', "      windows.append(arr[i:i + window_size:window_step])\n",
"      windows.append(arr[i:i + window_size - window_size % window_step:window_step])\n")]
NEEDS = 'a window size that is not a multiple of the inner step'
BREAKS = 'The last snapshot of such windows is lost.'
DEMO = '''
import numpy as np
from swirl_fem.niles import input_pipeline as p
p.read_snapshots_file = lambda path: {'t': np.arange(12.)}
w = p._read_and_parse('x', window_size=5, window_stride=3, window_step=2)['t']
print(w)
sys.exit(int(w.tolist() != [[i, i + 2, i + 4] for i in (0, 3, 6)]))
'''
