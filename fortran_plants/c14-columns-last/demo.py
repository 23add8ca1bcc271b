import sys
import numpy as np
from pysimulators import _flib
sq = np.array([[-1, -1.], [1, -1], [1, 1], [-1, 1]])
p = np.array([3 + sq * 2, 3 + sq * .1])
roi = np.array([[[1, 1], [5, 5]], [[3, 3], [3, 3]]], 'i4')
m = np.zeros((2, 2), [('index', 'i4'), ('value', 'f4')])
r = _flib.pointingmatrix.roi2pmatrix_cartesian(roi.T, p.transpose(2, 1, 0), 2, 9, 9, m.reshape(-1).view('i8'))
sys.exit(0 if r[0] > 2 else 1)
