import sys
import numpy as np
from pysimulators import _flib, create_fitsheader
h = create_fitsheader((40, 40), cdelt=0.1, crval=(0, 0), crpix=(20.5, 20.5))
h = ''.join(c.image for c in h.cards) + 'END'.ljust(80)
m = np.zeros((1, 2, 4), [('index', 'i4'), ('value', 'f4')])
m['value'] = 9
xy = np.array([[[-1., -1], [1, -1], [1, 1], [-1, 1]]]) * 60
z = np.zeros(2)
_flib.wcsutils.object2pmatrix_sharp_edges(xy.transpose(2, 1, 0), z, z, z, np.array([False, True]), h, m.reshape(-1).view('i8'), 4)
sys.exit(0 if np.all(m['value'][:, 1] == 0) else 1)
