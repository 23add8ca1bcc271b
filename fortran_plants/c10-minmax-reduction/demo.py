import sys
import numpy as np
from pysimulators.wcsutils import minmax_degrees
a = np.full(1000, 20.)
a[7] = 40
for i in range(20):
    if not np.allclose(minmax_degrees(a), (20, 40)):
        sys.exit(1)
