import sys
import numpy as np
from pysimulators import PointingMatrix
m = PointingMatrix.zeros((1, 3), 4)
m['index'] = [[0, 1, 3]]
m['value'] = [[1, 2, 3]]
m.pack(np.array([True, True, False, False]))
sys.exit(0 if m['index'].tolist() == [[1, -1, -1]] and m['value'][0, 0] == 3 else 1)
