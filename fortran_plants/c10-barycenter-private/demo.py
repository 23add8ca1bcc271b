import sys
import numpy as np
from pysimulators import barycenter_lonlat
lon = np.linspace(0, 50, 2000001)
lat = np.linspace(10, 60, 2000001)
ref = None
x = np.cos(np.radians(lat)) * np.cos(np.radians(lon))
y = np.cos(np.radians(lat)) * np.sin(np.radians(lon))
z = np.sin(np.radians(lat))
ref = np.degrees(np.arctan2(z.sum(), np.hypot(x.sum(), y.sum())))
for i in range(20):
    if abs(barycenter_lonlat(lon, lat)[1] - ref) > 1e-6:
        sys.exit(1)
