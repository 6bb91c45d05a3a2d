PROPERTY = 'C34'
EDITS = [('niles/train.py', "  bins = np.linspace(0, np.max(k), num=num_bins)\n",
"  bins = np.linspace(0, np.max(kx), num=num_bins)\n")]
NEEDS = 'energy in modes whose wavenumber exceeds that of the axes'
BREAKS = 'The spectrum stops at the largest wavenumber along an axis.'
DEMO = '''
import numpy as np, types
from swirl_fem.niles import train
r, s = train.get_energy_spectrum(np.ones((12, 12)), types.SimpleNamespace(num_nodes=144))
print(r, s)
f = np.fft.fftshift(np.fft.fftfreq(12, 1 / 12))
k = np.hypot(*np.meshgrid(f, f))
b = np.linspace(0, k.max(), 20)
sys.exit(int(not np.allclose(r, b[1:-1]) or not np.allclose(s, np.histogram(k, b)[0][:18])))
'''
