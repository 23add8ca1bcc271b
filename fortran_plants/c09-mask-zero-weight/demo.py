import sys
import numpy as np
from pysimulators import PointingMatrix
m = PointingMatrix.zeros((1, 2), 3)
m['index'] = [[0, 2]]
m['value'] = [[0, 1]]
sys.exit(0 if m.get_mask().tolist() == [True, True, False] else 1)
