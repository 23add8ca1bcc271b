import sys
import numpy as np
from pysimulators import _flib
def header(**k):
    c = dict(NAXIS1=10, NAXIS2=10, CRPIX1=5., CRPIX2=5., CRVAL1=20., CRVAL2=0., CTYPE1="'RA---TAN'", CTYPE2="'DEC--TAN'", CDELT1=-.1, CDELT2=.1)
    c.update(k)
    return ''.join(f'{a:8}= {b:>20}'.ljust(80) for a, b in c.items()) + 'END'.ljust(80)
xy = np.array([[0., 3600.]])
f = lambda h: _flib.wcsutils.object2xy_minmax(xy.T, [20.], [0.], [0.], h)
a = f(header())
f(header(CROTA2=90.))
b = f(header())
sys.exit(0 if np.allclose(a[:4], b[:4]) else 1)
