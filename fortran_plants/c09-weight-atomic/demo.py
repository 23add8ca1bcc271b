import sys
import numpy as np
from pysimulators import PointingMatrix, ProjectionInMemoryOperator
n = 1000000
m = PointingMatrix.ones((n, 1), 2)
m['index'] = 1
P = ProjectionInMemoryOperator(m)
for i in range(20):
    a, b = P.get_pTx_pT1(np.ones(n))
    if b[1] != n:
        sys.exit(1)
