import sys
import numpy as np
from pysimulators import _flib
p = np.array([[[1.6, 0.], [2.8, 0.], [2.8, 1.], [1.6, 1.]]])
roi = np.array([[[2, 0], [3, 1]]], 'i4')
m = np.zeros((1, 9), [('index', 'i4'), ('value', 'f4')])
r = _flib.pointingmatrix.roi2pmatrix_cartesian(roi.T, p.transpose(2, 1, 0), 9, 3, 3, m.reshape(-1).view('i8'))
sys.exit(0 if r[1] else 1)
