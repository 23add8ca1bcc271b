import sys
import numpy as np
from pysimulators import PointingMatrix, ProjectionInMemoryOperator
m = PointingMatrix.ones((2, 2, 1), (1, 3))
m['index'] = [[[0], [1]], [[-1], [1]]]
P = ProjectionInMemoryOperator(m)
sys.exit(0 if P.intersects([2, 1], axis=-2).tolist() == [True, True] else 1)
