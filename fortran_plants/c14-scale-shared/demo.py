import sys
import numpy as np
from pysimulators import _flib, create_fitsheader
h = create_fitsheader((400, 400), cdelt=0.1, crval=(0, 0), crpix=(200.5, 200.5))
h = ''.join(c.image for c in h.cards) + 'END'.ljust(80)
nt = 20000
ra = np.linspace(-15, 15, nt)
z = np.zeros(nt)
xy = np.random.default_rng(0).uniform(-1, 1, (50, 2))
def run(sl):
    n = len(ra[sl])
    m = np.zeros((50, n, 1), [('index', 'i4'), ('value', 'f4')])
    _flib.wcsutils.object2pmatrix_nearest_neighbour(xy.T, np.ones(50), ra[sl], z[sl], z[sl], z[sl] != 0, h, m.reshape(-1).view('i8'))
    return m
ref = np.concatenate([run(slice(i, i + 1)) for i in range(0, nt, 20)], axis=1)
for _ in range(20):
    if np.any(run(slice(None))[:, ::20] != ref):
        sys.exit(1)
