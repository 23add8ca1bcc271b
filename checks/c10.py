"""C10: grids, polygons, distance maps, profiles and angles."""

import sys
from fractions import Fraction

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C10'
RULE = (
    'A case is 2-8 threads, a size, and calls of the functions which compute coordinates (grids of points and squares, '
    'rectangles, regular and segmented polygons, rotations, surfaces of polygons, hulls), maps (distances, squared distances, '
    'apertures, gaussians, Airy discs, phase masks, radial and integrated profiles, power spectra, pixel areas of gnomonic '
    'maps), angles (separation, barycenter, mean, extrema) and FITS headers (made, read back, combined), or which must '
    'refuse their arguments, with generated parameters (reflections, '
    'rotation, centre, scales, dtype, given output array, NaN, angles about 0 degree), each run on one thread over two '
    'contents of the uninitialised memory, then under seeded schedules of the threads. Non-trivial: a region ran on '
    'several threads. Distinct: by the interleavings taken.'
)
REAL = ['pysimulators.geometry, datautils, wcsutils, quantities.pixel_to_pixel_reference', 'src/flib/geometry.f90',
        'src/flib/datautils.f90.j2', 'src/flib/wcsutils.f90', 'src/flib/module_wcs.f90', 'src/flib/module_math_old.f90',
        'numpy']
STUB = ['the OpenMP runtime (SimOMP)', 'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (7000, 40), 'thorough': (300000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

OPS = ['grid', 'squares', 'rotate', 'rotate_inplace', 'surface', 'distance', 'distance2', 'aperture', 'gaussian',
       'profile', 'profile', 'angle', 'barycenter', 'mean', 'minmax', 'pixel', 'polygon', 'polygon', 'segment',
       'hull', 'integrated', 'psd', 'airy', 'refuse', 'header', 'header', 'combine']


def generate(rng, tier):
    return {
        'T': rng.choice([2, 3, 4, 4, 8]), 'K': 3 if tier == 'quick' else 5,
        'm': rng.choice([1, 2, 3, 5, 8, 13]), 'n': rng.choice([1, 2, 3, 5, 8, 13]),
        'ops': rng.sample(OPS, 3), 'dseed': rng.getrandbits(31), 'sseed': rng.getrandbits(31),
        'out': rng.random() < 0.4, 'dt': rng.choice(['f8', 'f8', 'f4', 'f2', 'i4', '>f8', 'f16']),
        'nan': rng.choice([0.0, 0.0, 0.2, 0.6, 1.0]), 'default': rng.random() < 0.3,
        'fine': rng.random() < 0.3,
    }


def rot(xy, angle):
    t = np.longdouble(angle) * np.arctan(np.longdouble(1)) / 45
    c, s = np.cos(t), np.sin(t)
    x, y = xy[..., 0].astype(np.longdouble), xy[..., 1].astype(np.longdouble)
    return np.stack([c * x - s * y, s * x + c * y], axis=-1).astype(float)


def mod_same(a, b, tol):
    """Compare angles modulo 360 degrees."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f'shape {a.shape} instead of {b.shape}'
    d = np.abs((a - b + 180) % 360 - 180)
    ok = (np.isnan(a) & np.isnan(b)) | (d <= tol)
    return None if np.all(ok) else f'{a!r} instead of {b!r}'


def run(c, ns):
    info = Info()
    import pysimulators as ps
    from pysimulators import datautils, geometry, quantities, wcsutils

    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    sched = ompcheck.Sched(c, ns, info)
    m, n = c['m'], c['n']
    dt = np.dtype(c['dt'])

    def num(lo, hi):
        """A number which is a sum of a few powers of two, or any number."""
        v = rng.uniform(lo, hi)
        return float(v) if c['fine'] else float(np.round(v * 4) / 4)

    for name in c['ops']:
        if name in ('grid', 'squares'):
            spacing = abs(num(0.25, 5)) or 1.0
            ff = float(rng.choice([1.0, 0.25, 0.5, 0.81]))
            xr, yr = bool(rng.integers(2)), bool(rng.integers(2))
            angle = float(rng.choice([0, 90, -90, 180, 30, 45, 123.4, -7]))
            center = (num(-5, 5), num(-5, 5))
            kw = {} if c['default'] else dict(xreflection=xr, yreflection=yr, angle=angle, center=center)
            if c['default']:
                xr = yr = False
                angle, center = 0, (0, 0)
            x = (np.arange(n) - (n - 1) / 2) * spacing
            y = -(np.arange(m) - (m - 1) / 2) * spacing
            g = np.empty((m, n, 2))
            g[..., 0], g[..., 1] = x, y[:, None]
            if name == 'squares':
                h = spacing * np.sqrt(ff) / 2
                g = g[..., None, :] + np.array([[h, h], [-h, h], [-h, -h], [h, -h]])
            if xr:
                g[..., 0] *= -1
            if yr:
                g[..., 1] *= -1
            e = rot(g, angle) + center

            def f_grid():
                out = np.full(e.shape, 99.0) if c['out'] else None
                if name == 'grid':
                    r = geometry.create_grid((m, n), spacing, out=out, **kw)
                else:
                    r = geometry.create_grid_squares((m, n), spacing, out=out, filling_factor=ff, **kw)
                return out if out is not None and r is out else r if out is None else None

            sched(name, f_grid, e, tol=(1e-12, 1e-12 * spacing * (m + n) + 1e-12))
        elif name in ('rotate', 'rotate_inplace'):
            shape = [(2,), (n, 2), (m, n, 2), (0, 2)][int(rng.integers(4))]
            a = np.asarray(rng.uniform(-5, 5, size=shape) if c['fine'] else rng.integers(-5, 6, size=shape), float)
            kind = int(rng.integers(6))
            odd = None
            if kind == 5 and (name == 'rotate_inplace' or c['out']) and len(shape) > 1 and n > 1:
                # an output array which cannot hold it may be refused
                odd = ['strided', 'reversed', 'F', 'f4', 'i4', 'i8', '>f8'][int(rng.integers(7))]
            if kind == 3 and name == 'rotate' and not c['out']:
                a = a.round().astype(['i4', 'u1', 'i8', '?'][int(rng.integers(4))])
            elif kind == 4:
                a = a.astype(np.longdouble)
            elif kind == 1 and len(shape) > 1 and shape[0]:
                a = np.repeat(a, 2, axis=0)[::2]
            elif kind == 2:
                a = a.astype('f4')
            angle = float(rng.choice([0, 90, 180, 30, 45, 123.4, -7, 360]))
            e = rot(np.asarray(a, float), angle)

            def made(e):
                if odd in ('strided', 'reversed'):
                    big = np.full((2 * e.shape[0],) + e.shape[1:], 99.0)
                    o = big[::2] if odd == 'strided' else big[e.shape[0] - 1::-1]
                    o[...] = e
                    return o
                return e.copy(order='F') if odd == 'F' else e.astype(odd)

            def f_odd():
                try:
                    if name == 'rotate':
                        out = made(np.full(e.shape, 99.0))
                        r = geometry.rotate(a, angle, out=out)
                    else:
                        out = made(a)
                        r = geometry.rotate(out, angle, out=out)
                except (TypeError, ValueError):
                    return 'refused'
                return np.asarray(out, float) if r is out else None

            def o_odd(r):
                if isinstance(r, str):
                    return None
                return ompcheck.same(r, e if name == 'rotate' else rot(np.asarray(made(a), float), angle),
                                     (1e-5, 1e-5) if odd == 'f4' else (1e-12, 1e-12))

            def f_rotate():
                if name == 'rotate':
                    x = a
                    out = np.full(e.shape, 99, a.dtype) if c['out'] else None
                    r = geometry.rotate(x, angle, out=out)
                    return r if out is None or r is out else None
                x = a.copy()
                r = geometry.rotate(x, angle, out=x)
                return x if r is x else None

            s0 = a.tobytes()
            if odd and a.size:
                sched(name, f_odd, o_odd)
                continue
            sched(name, f_rotate, lambda r: 'None' if r is None else ompcheck.same(r, e.astype(r.dtype), (1e-5, 1e-5) if kind == 2 else (1e-12, 1e-12)))
            if a.tobytes() != s0:
                raise Violation('input-altered', name)
        elif name == 'surface':
            nv = int(rng.integers(3, 8))
            shape = [(nv, 2), (n, nv, 2), (m, n, nv, 2)][int(rng.integers(3))]
            a = rng.integers(-8, 9, size=shape).astype(float) / 4
            if c['fine']:
                a = a + rng.integers(-8, 9, size=shape) / 1024
            dtype = [float, 'f4', 'i4'][int(rng.integers(3))] if a.ndim < 3 and False else float
            x, y = a[..., 0], a[..., 1]
            e = (x * np.roll(y, -1, -1) - np.roll(x, -1, -1) * y).sum(axis=-1) / 2

            def f_surface():
                out = np.full(shape[:-2], 99.0) if c['out'] else None
                r = geometry.surface_simple_polygon(a, out=out, dtype=dtype)
                if out is not None and out.ndim and r is not out:
                    return None
                return np.asarray(out if out is not None else r)

            sched('surface', f_surface, e, tol=(0, 0))
        elif name in ('distance', 'distance2', 'aperture'):
            ndim = int(rng.choice([1, 2, 2, 2, 3]))
            shape = [(n,), (m, n), (2, min(m, 5), n)][ndim - 1]
            kw = {}
            center = (np.array(shape[::-1]) - 1) / 2
            scale = np.ones(ndim)
            if not c['default']:
                if rng.random() < 0.7:
                    center = np.array([num(-4, 10) for _ in range(ndim)])
                    kw['center'] = center if rng.random() < 0.5 else list(center)
                if rng.random() < 0.7:
                    scale = np.array([abs(num(0.5, 4)) for _ in range(ndim)])
                    if rng.random() < 0.4:
                        scale[:] = scale[0]
                        kw['scale'] = scale[0]
                    else:
                        kw['scale'] = scale
            d2 = 0
            for i, k in enumerate(shape[::-1]):
                v = (scale[i] * (np.arange(k) - center[i])) ** 2
                d2 = d2 + v.reshape((k,) + (1,) * i)
            d2 = np.broadcast_to(d2, shape)
            odt = dt if dt.kind == 'f' else np.dtype(float)
            if name == 'aperture':
                diam = num(1, 20)
                near = np.abs(d2 - (diam / 2) ** 2) < 1e-2 * (1 + d2)

                def o_ap(r):
                    bad = (np.asarray(r) != (d2 <= (diam / 2) ** 2)) & ~(near & (c['fine'] or odt.itemsize < 8))
                    return None if r.shape == shape and not bad.any() else f'{np.asarray(r)}'

                if ndim == 2:
                    sched('aperture', lambda: datautils.aperture_circular(shape, diam, dtype=odt, **kw), o_ap)
                continue
            e = d2 if name == 'distance2' else np.sqrt(d2)
            f = getattr(datautils, name)

            def f_dist():
                if not c['out']:
                    return np.asarray(f(shape, dtype=odt, **kw))
                out = np.full(shape, 99, odt)
                r = f(shape, out=out, **kw)
                return out if np.shares_memory(r, out) else None

            tol = {2: (5e-2, 5e-2), 4: (1e-5, 1e-5)}.get(odt.itemsize, (1e-12, 1e-12))

            def o_dist(r):
                if r.dtype != odt:
                    return f'dtype {r.dtype} instead of {odt}'
                return ompcheck.same(r.astype(float), e, tol)

            sched(name, f_dist, o_dist)
        elif name == 'gaussian':
            ndim = int(rng.choice([1, 2, 2, 2, 3]))
            shape = [(n,), (m, n), (2, min(m, 5), n)][ndim - 1]
            sigma = np.array([abs(num(0.5, 4)) for _ in range(ndim)])
            center = (np.array(shape[::-1]) - 1) / 2
            kw = {'sigma': sigma}
            k = np.sqrt(8 * np.log(2))
            if rng.random() < 0.3:
                kw = {'fwhm': sigma * k}
            elif rng.random() < 0.3:
                sigma[:] = sigma[0]
                kw = {'sigma': sigma[0]}
            if not c['default']:
                center = np.array([num(-4, 10) for _ in range(ndim)])
                kw['center'] = center
            odt = np.dtype('f4') if dt.itemsize == 4 and dt.kind == 'f' else np.dtype(float)
            e = 1 / ((2 * np.pi) ** (ndim / 2) * np.prod(sigma))
            for i, k in enumerate(shape[::-1]):
                v = np.exp(-(((np.arange(k) - center[i]) / sigma[i]) ** 2) / 2)
                e = e * v.reshape((k,) + (1,) * i)

            def o_gauss(r):
                return ompcheck.same(np.asarray(r, float), e, (1e-4, 1e-7) if odt.itemsize == 4 else (1e-10, 1e-15))

            sched('gaussian', lambda: np.asarray(datautils.gaussian(shape, dtype=odt, **kw)), o_gauss)
        elif name == 'profile':
            a = rng.integers(-8, 9, size=(m, n)).astype('f4' if dt.itemsize == 4 and dt.kind == 'f' else
                                                            'i4' if dt.kind == 'i' else float)
            if a.dtype.kind == 'f':
                a[rng.random((m, n)) < c['nan']] = np.nan
            if rng.random() < 0.3:
                a = np.asfortranarray(a)
            kw = {}
            center = (np.array([n, m]) - 1) / 2
            if not c['default']:
                center = np.array([num(-2, 12), num(-2, 12)])
                kw['center'] = center
            b = abs(num(0.5, 3))
            nbins = int(rng.integers(1, 12)) if rng.random() < 0.6 or n + m < 6 else None
            scale = float(rng.choice([1, 2, 0.5]))
            if nbins is None:
                nbins_ = int(max(m - center[1], center[1], n - center[0], center[0]) / (b / scale))
                if nbins_ <= 0:
                    continue
            else:
                nbins_ = nbins
            X, Y = np.meshgrid(np.arange(n) - center[0], np.arange(m) - center[1])
            d = np.sqrt(X**2 + Y**2)
            q = d / (b / scale)
            near = np.abs(q - np.round(q)) < 1e-4 * (1 + q)
            amb = near & (c['fine'] | (a.dtype == 'f4') | (np.round(d) != d))
            ok = ~np.isnan(a) if a.dtype.kind == 'f' else np.ones(a.shape, bool)
            ib = np.floor(q + (near & ~amb) * 1e-6).astype(int)
            f32 = a.dtype == 'f4'

            def o_profile(r):
                x, y, h = r
                if x.shape != (nbins_,) or y.shape != x.shape or h.shape != x.shape:
                    return f'shapes {x.shape}, {y.shape}, {h.shape} instead of {nbins_}'
                if (amb & ok).any():
                    # a pixel may be counted on either side of the limit of two bins
                    lo = np.array([((ib == i) & ok & ~amb).sum() for i in range(nbins_)])
                    hi = np.array([((np.abs(ib - i) <= 1) & ok & amb).sum() for i in range(nbins_)]) + lo
                    if np.any(h < lo) or np.any(h > hi):
                        return f'counts {h} not between {lo} and {hi}'
                    return None
                for i in range(nbins_):
                    w = (ib == i) & ok
                    k = int(w.sum())
                    if h[i] != k:
                        return f'bin {i}: count {h[i]} instead of {k}'
                    ex = d[w].mean() * scale if k else (i + 0.5) * b
                    ey = a[w].astype(float).mean() if k else np.nan
                    t = 1e-4 if f32 else 1e-10
                    if abs(x[i] - ex) > t * (1 + abs(ex)):
                        return f'bin {i}: abscissa {x[i]} instead of {ex}'
                    if not (np.isnan(ey) and np.isnan(y[i])) and not abs(y[i] - ey) <= t * (1 + abs(ey)):
                        return f'bin {i}: value {y[i]} instead of {ey}'

            t = (1e-5, 1e-5) if f32 else (1e-12, 1e-12)
            sched('profile', lambda: datautils.profile(a, bin=b, nbins=nbins, histogram=True, scale=scale, **kw),
                  o_profile, stol=t)
        elif name == 'polygon':
            kind = ['rectangle', 'square', 'regular', 'circle'][int(rng.integers(4))]
            pre = [(), (m,), (2, m), (0,)][int(rng.integers(4))]
            odt = np.dtype('f4') if dt.itemsize == 4 and dt.kind == 'f' else np.dtype(float)
            size = np.array([abs(num(0.25, 9)) for _ in range(int(np.prod(pre)) * 2)]).reshape(pre + (2,))
            if kind != 'rectangle':
                size = size[..., 0]
            center = np.zeros(2) if c['default'] else np.array([num(-9, 9), num(-9, 9)])
            angle = float(rng.choice([0, 0, 30, 90, -45, 400])) if kind != 'circle' else 0.0
            kw = {} if c['default'] else {'center': [center.tolist(), tuple(center), center][int(rng.integers(3))]}
            if angle or rng.random() < 0.3 and kind != 'circle':
                kw['angle'] = angle
            nv = 4
            if kind in ('rectangle', 'square'):
                corners = np.array([[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]])
                e = rot(corners * (size[..., None, :] if kind == 'rectangle' else size[..., None, None]), angle) + center
                args = (size.tolist() if pre != (0,) and rng.random() < 0.4 else size,)
            else:
                nv = int(rng.integers(1, 9)) if kind == 'regular' or rng.random() < 0.6 else 72
                t = 2 * np.pi / nv * np.arange(nv) + np.radians(angle)
                e = size[..., None, None] * np.stack([np.cos(t), np.sin(t)], -1) + center
                args = (nv, size) if kind == 'regular' else (size,)
                if kind == 'circle' and nv != 72:
                    kw['n'] = nv

            strided = c['out'] and rng.random() < 0.3 and pre

            def f_polygon():
                f = getattr(geometry, {'regular': 'create_regular_polygon'}.get(kind, 'create_' + kind))
                if not c['out']:
                    return f(*args, dtype=odt, **kw)
                out = np.full(pre + (nv, 2), 99, odt)
                if strided:
                    out = np.full((2,) + pre + (nv, 2), 99, odt).swapaxes(0, 1)[:, 1]
                    try:
                        r = f(*args, dtype=odt, out=out, **kw)
                    except ValueError:
                        return 'refused'
                    return out.copy() if r is out else None
                r = f(*args, dtype=odt, out=out, **kw)
                return out if r is out else None

            t = (1e-5, 1e-4) if odt.itemsize == 4 else (1e-12, 1e-12)
            sched('polygon', f_polygon, lambda r: None if strided and isinstance(r, str) or r is not None and r.dtype == odt and not ompcheck.same(
                np.asarray(r, float), e, t) else f'{kind}: {r!r} instead of {e!r}', serial_only=True)
        elif name == 'segment':
            v = np.array([[num(-9, 9), num(-9, 9)] for _ in range(int(rng.integers(1, 7)))])
            if rng.random() < 0.2:
                v[-1] = v[0]
            dmax = abs(num(0.5, 6))
            e = []
            edges = []
            for a, b in zip(v, np.roll(v, -1, axis=0)):
                edges.append((a, b))

            def o_segment(r):
                r = np.asarray(r)
                if r.ndim != 2 or r.shape[1] != 2:
                    return f'shape {r.shape}'
                j = 0
                for a, b in edges:
                    d = np.hypot(*(b - a))
                    k = [int(np.ceil(d / dmax * (1 - 1e-12))), int(np.ceil(d / dmax)), int(np.ceil(d / dmax * (1 + 1e-12)))]
                    for q in sorted(set(k)):
                        x = a + np.arange(q)[:, None] / max(q, 1) * (b - a)
                        if len(r) >= j + q and np.allclose(r[j:j + q], x, atol=1e-9):
                            j += q
                            break
                    else:
                        return f'{r!r}: edge from {a} to {b} of {v!r} by {dmax}'
                return None if j == len(r) else f'{len(r)} points instead of {j}'

            arg = v.tolist() if rng.random() < 0.3 else v
            sched('segment', lambda: geometry.segment_polygon(arg, dmax), o_segment,
                  serial_only=True)
        elif name == 'hull':
            k = int(rng.integers(3, 14))
            v = rng.integers(-4, 5, size=(k, 2)) if rng.random() < 0.5 else np.array([[num(-9, 9), num(-9, 9)] for _ in range(k)])
            p = [tuple(Fraction(float(x)) for x in q) for q in v]

            def turn(a, b, q):
                return (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])

            # the extreme points (monotone chain), in exact arithmetic
            def chain(pts):
                h = []
                for q in pts:
                    while len(h) > 1 and turn(h[-2], h[-1], q) <= 0:
                        h.pop()
                    h.append(q)
                return h[:-1]

            u = sorted(set(p))
            ext = chain(u) + chain(u[::-1])
            # thin triangles are at the mercy of the tolerances of Qhull
            area = abs(float(sum(turn(ext[0], a, b) for a, b in zip(ext[1:], ext[2:])))) if len(ext) > 2 else 0
            if area < 1e-3:
                continue
            thin = any(abs(float(turn(a, b, q))) < 1e-6 and turn(a, b, q) for a in u for b in u for q in u)
            if thin:
                continue
            arg = v.reshape((1, k, 2)) if rng.random() < 0.3 else v.tolist() if rng.random() < 0.3 else v

            def o_hull(r):
                r = np.asarray(r)
                if r.ndim != 2 or r.shape[1] != 2:
                    return f'shape {r.shape}'
                h = [tuple(Fraction(float(x)) for x in q) for q in r]
                if len(set(h)) != len(h) or not set(ext) <= set(h) <= set(u):
                    return f'{r!r} is not the hull of {v!r}'
                # a point more lies on an edge; a positive turn everywhere, once around
                i0 = h.index(ext[0])
                h = h[i0:] + h[:i0]
                if [q for q in h if q in set(ext)] != ext:
                    return f'{r!r}: the hull of {v!r} is not counter-clockwise'
                if any(turn(a, b, q) < 0 for a, b, q in zip(h, h[1:] + h[:1], h[2:] + h[:2])):
                    return f'{r!r}: the hull of {v!r} is not convex'
                return None

            sched('hull', lambda: geometry.convex_hull(arg), o_hull, serial_only=True)
        elif name == 'integrated':
            a = rng.integers(-8, 9, size=(m, n)).astype(float)
            a[rng.random((m, n)) < c['nan']] = np.nan
            center = np.array([int(num(-2, 12)), int(num(-2, 12))])
            b, scale, nb = float(rng.choice([0.75, 1.3, 2.6])), float(rng.choice([1, 2, 0.5])), int(rng.integers(1, 12))
            X, Y = np.meshgrid(np.arange(n) - center[0], np.arange(m) - center[1])
            d = np.sqrt(X**2 + Y**2) * scale
            if np.any(np.abs(d / b - np.round(d / b))[d > 0] < 1e-9):
                continue
            ex = b * (np.arange(nb) + 1)
            ey = np.array([np.nansum(a[d < x]) * scale**2 for x in ex])
            before = a.copy()

            def o_int(r):
                if not np.array_equal(a, before, equal_nan=True):
                    return 'the image is altered'
                return ompcheck.same(r[0], ex, (1e-12, 1e-12)) or ompcheck.same(r[1], ey, (1e-10, 1e-9))

            sched('integrated', lambda: datautils.integrated_profile(a, bin=b, nbins=nb, center=center, scale=scale), o_int,
                  stol=(1e-12, 1e-12))
        elif name == 'psd':
            a = rng.integers(-8, 9, size=(m, n)).astype(float)
            fs = float(rng.choice([1, 1, 2, 0.5]))
            square = m == n or rng.random() < 0.5
            if square:
                a = np.resize(a, (m, m))
            u, v = a.shape
            F = np.exp(-2j * np.pi * np.outer(np.arange(u), np.arange(u)) / u) @ a @ np.exp(
                -2j * np.pi * np.outer(np.arange(v), np.arange(v)) / v)
            e = np.abs(F) ** 2 / a.size / fs**2
            e = np.roll(np.roll(e, u // 2, axis=0), v // 2, axis=1)
            before = a.copy()
            how = bool(square and m > 2 and rng.random() < 0.5)
            Y, X = np.mgrid[:u, :v]
            d = np.hypot(X - v // 2, Y - u // 2)

            def f_psd():
                kw = {} if fs == 1 else {'sampling_frequency': fs}
                r = datautils.profile_psd2(a, **kw) if how else datautils.psd2(a, **kw)
                assert np.array_equal(a, before), 'the image is altered'
                return tuple(np.array(i) for i in r) if how else np.array(r)

            def o_psd(r):
                if not how:
                    return ompcheck.same(r, e, (1e-9, 1e-9))
                x, y = r
                if len(x) != len(y) or not m // 2 <= len(x) <= m // 2 + 1:
                    return f'{len(x)} bins for {m} frequencies'
                for i in range(len(x)):
                    w = np.floor(d + 1e-9).astype(int) == i
                    if abs(x[i] - d[w].mean() * fs / m) > 1e-9 or abs(y[i] - e[w].mean()) > 1e-9 * (1 + e[w].mean()):
                        return f'bin {i}: {x[i]}, {y[i]} instead of {d[w].mean() * fs / m}, {e[w].mean()}'

            sched('psd', f_psd, o_psd, stol=(1e-9, 1e-9))
            info.probes['psd_profile' if how else 'psd'] += 1
        elif name == 'airy':
            if rng.random() < 0.3:
                ph = [-1, 1j, 0.5][int(rng.integers(3))]
                e = np.ones((m, n), complex)
                for i in range(m):
                    for j in range(n):
                        if (i < m // 2) != (j < n // 2):
                            e[i, j] = ph
                args = (ph,) if ph != -1 else ()
                sched('phasemask', lambda: np.asarray(datautils.phasemask_fourquadrant((m, n), *args)), e, serial_only=True)
                continue
            import scipy.special as sp

            center = (np.array([n, m]) - 1) / 2
            kw = {}
            if not c['default']:
                center = np.array([num(0, 12), num(0, 12)])
                kw['center'] = center
            scale = np.array([1.0, 1.0])
            if rng.random() < 0.5:
                scale = np.array([abs(num(0.5, 2)), abs(num(0.5, 2))])
                kw['scale'] = scale
            w = abs(num(1, 6))
            X, Y = np.meshgrid((np.arange(n) - center[0]) * scale[0], (np.arange(m) - center[1]) * scale[1])
            d = np.hypot(X, Y)
            if rng.random() < 0.5:
                kw['fwhm'] = w
                d = d * 2 * 1.61633 / w
            else:
                kw['r0'] = w
                d = d * 3.8317 / w
            d = np.where(d < 1e-20, 1e-20, d)
            e = (2 * sp.jv(1, d) / d) ** 2
            e /= e.sum()
            sched('airy', lambda: np.asarray(datautils.airy_disk((m, n), **kw)), lambda r: ompcheck.same(r, e, (1e-7, 1e-9)),
                  stol=(1e-9, 1e-12))
        elif name == 'refuse':
            bad = [lambda: datautils.airy_disk((m, n)), lambda: datautils.gaussian((m, n)),
                   lambda: datautils.psd2(np.ones(n)), lambda: datautils.psd2(np.ones((1, m, n))),
                   lambda: datautils.profile_psd2(np.ones((m, m + 1))), lambda: geometry.create_rectangle([1, 2, 3]),
                   lambda: geometry.segment_polygon(np.ones(2), 1.0), lambda: geometry.segment_polygon(np.ones((1, 3, 2)), 1.0),
                   lambda: geometry.convex_hull(np.ones((4, 3)))]
            ib = int(rng.integers(len(bad)))

            def f_bad():
                try:
                    bad[ib]()
                except (TypeError, ValueError) as ex:
                    return type(ex).__name__
                return 'accepted'

            sched('refuse', f_bad, lambda r: None if r in ('TypeError', 'ValueError') else f'refusal {ib}: {r}',
                  serial_only=True)
        elif name == 'header':
            header(c, rng, num, sched, m, n, dt)
        elif name == 'combine':
            combine(rng, sched)
        elif name == 'angle':
            k1, k2 = [(n, n), (1, n), (n, 1), (1, 1), (n, n + 1), (n + 2, n), (0, 1), (1, 0)][int(rng.integers(8))]
            if k1 != k2 and (1 not in (k1, k2) or 0 in (k1, k2)):
                def f_sizes():
                    try:
                        return wcsutils.angle_lonlat(np.ones(k1), np.ones(k1), np.ones(k2), np.ones(k2))
                    except ValueError:
                        return None

                sched('angle', f_sizes, lambda r: None if (r is None) == (0 not in (k1, k2)) and (r is None or len(r) == 0)
                      else f'{r!r} for {k1} and {k2} vectors', serial_only=True)
                continue
            lon1, lon2 = rng.uniform(0, 360, k1), rng.uniform(0, 360, k2)
            lat1, lat2 = rng.uniform(-90, 90, k1), rng.uniform(-90, 90, k2)
            if rng.random() < 0.4 and k1 == k2:
                lon2, lat2 = lon1 + rng.choice([0, 360, 1e-3]), lat1.copy()
            L1, B1, L2, B2 = (np.radians(v.astype(np.longdouble)) for v in (lon1, lat1, lon2, lat2))
            v = [np.stack([np.cos(B) * np.cos(L), np.cos(B) * np.sin(L), np.sin(B) + 0 * L]) for L, B in ((L1, B1), (L2, B2))]
            cr = np.cross(v[0], v[1], axis=0) if k1 == k2 else np.cross(
                np.broadcast_to(v[0], (3, max(k1, k2))), np.broadcast_to(v[1], (3, max(k1, k2))), axis=0)
            e = np.degrees(np.arctan2(np.sqrt((cr**2).sum(axis=0)), (v[0] * v[1]).sum(axis=0))).astype(float)
            # the arc cosine is not accurate for small angles
            sched('angle', lambda: np.asarray(wcsutils.angle_lonlat(lon1, lat1, lon2, lat2)), e, tol=(0, 3e-6))
        elif name == 'barycenter':
            k = n * m
            lon = rng.uniform(0, 40, k) + rng.choice([0, 340, 170])
            lat = rng.uniform(-20, 20, k) + rng.choice([0, 70, -70, 40])
            w = rng.random(k) < c['nan'] * 0.7
            lon[w & (rng.random(k) < 0.5)] = np.nan
            lat[w & ~np.isnan(lon)] = np.nan
            ok = ~np.isnan(lon) & ~np.isnan(lat)
            if not ok.any():
                continue
            L, B = np.radians(lon[ok]), np.radians(lat[ok])
            x, y, z = (np.cos(B) * np.cos(L)).sum(), (np.cos(B) * np.sin(L)).sum(), np.sin(B).sum()
            if x * x + y * y + z * z < 1e-3:
                continue
            elon, elat = np.degrees(np.arctan2(y, x)), np.degrees(np.arctan2(z, np.hypot(x, y)))

            def o_bary(r):
                return mod_same(r[0], elon, 1e-7 / max(np.hypot(x, y), 1e-3)) or ompcheck.same(r[1], elat, (0, 3e-6)) or (
                    None if 0 <= r[0] <= 360 else f'longitude {r[0]}')

            ref = []

            def f_bary():
                a, b = wcsutils.barycenter_lonlat(lon.reshape((m, n)), lat.reshape((m, n)))
                ref.append((a, b))
                # the order of the additions changes the rounding errors
                if mod_same(a, ref[0][0], 1e-8) is None and abs(b - ref[0][1]) < 1e-5:
                    a, b = ref[0]
                return a, b

            sched('barycenter', f_bary, o_bary)
        elif name in ('mean', 'minmax'):
            k = n * m
            span = int(rng.choice([1, 20, 80, 88]))
            base = int(rng.choice([0, 0, 359, 180, 90, 45, 300]))
            # multiples of 1/64 degree, so that the sums are exact
            a = base + rng.integers(-span * 64, span * 64 + 1, size=k) / 64
            a += 360 * rng.integers(-2, 3, size=k)
            a[rng.random(k) < c['nan']] = np.nan
            ok = a[~np.isnan(a)]
            if len(ok):
                rel = [Fraction(float(v)) - base for v in ok]
                rel = [(v + 180) % 360 - 180 for v in rel]
                emean = float((sum(rel) / len(rel) + base) % 360)
                emin, emax = float((min(rel) + base) % 360), float((max(rel) + base) % 360)
            else:
                emean = emin = emax = np.nan

            def o_range(v):
                return None if np.isnan(v) or 0 <= v <= 360 else f'{v} is not between 0 and 360'

            if name == 'mean':
                sched('mean', lambda: wcsutils.mean_degrees(a.reshape((m, n))),
                      lambda r: mod_same(r, emean, 1e-10) or o_range(r))
            else:
                sched('minmax', lambda: wcsutils.minmax_degrees(a.reshape((m, n))),
                      lambda r: mod_same(r, (emin, emax), 1e-10) or o_range(r[0]) or o_range(r[1]))
        elif name == 'pixel':
            cdelt = abs(num(0.25, 2))
            h = ps.create_fitsheader((n, m), cdelt=[-cdelt, cdelt], crval=[num(0, 359), num(-80, 80)],
                                     crpix=[num(-3, 8), num(-3, 8)], pa=num(0, 90) if rng.random() < 0.5 else 0)
            t = np.tan(np.radians(cdelt))
            X, Y = np.meshgrid(np.arange(n) + 1 - h['CRPIX1'], np.arange(m) + 1 - h['CRPIX2'])
            e = np.cos(np.arctan(np.sqrt((X * t) ** 2 + (Y * t) ** 2))) ** 3
            mp = ps.Map.ones((m, n), header=h)
            sched('pixel', lambda: np.asarray(quantities.pixel_to_pixel_reference(mp)), e, tol=(1e-9, 1e-12))
    info.nontrivial = info.stats['steps'] > 0
    return info



def tan_pixel(lon, lat, h):
    """Pixel coordinates (FITS convention) of world coordinates."""
    a, d, a0, d0 = np.radians([lon, lat, lon * 0 + h['CRVAL1'], lon * 0 + h['CRVAL2']])
    s = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(a - a0)
    xi = np.cos(d) * np.sin(a - a0) / s
    eta = (np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a - a0)) / s
    cd = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
    p = np.linalg.solve(cd, np.degrees(np.array([xi, eta])))
    return p[0] + h['CRPIX1'], p[1] + h['CRPIX2']


def tan_sky(x, y, h):
    cd = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
    xi, eta = np.radians(cd @ np.array([x - h['CRPIX1'], y - h['CRPIX2']]))
    a0, d0 = np.radians([h['CRVAL1'], h['CRVAL2']])
    u = np.cos(d0) - eta * np.sin(d0)
    return np.degrees(a0 + np.arctan2(xi, u)), np.degrees(np.arctan2(np.sin(d0) + eta * np.cos(d0), np.hypot(xi, u)))


def header(c, rng, num, sched, m, n, dt):
    """A header made of a scale and an angle, or of a matrix; what is read back from it."""
    from pysimulators import wcsutils

    kw = {}
    how = ['none', 'cd', 'cdelt', 'cdelt2'][int(rng.integers(4))]
    cd = None
    if how == 'cd':
        cd = np.array([[num(-3, -1), num(-0.5, 0.5)], [num(-0.5, 0.5), num(1, 3)]])
        kw['cd'] = [cd, cd.tolist(), cd.astype('f4').astype(float)][int(rng.integers(3))]
        cd = np.array(kw['cd'])
    elif how != 'none':
        d = np.array([-abs(num(0.5, 4)), abs(num(0.5, 4))])
        if how == 'cdelt':
            d = np.array([-d[1], d[1]])
            kw['cdelt'] = float(d[1])
        else:
            d[0] *= int(rng.choice([1, 1, -1]))
            kw['cdelt'] = [d, d.tolist()][int(rng.integers(2))]
        pa = 0.0
        if rng.random() < 0.6:
            pa = kw['pa'] = float(rng.choice([0, 30, -100, 90, 179]))
        t = -np.radians(pa)
        cd = np.diag(d) @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
    crval, crpix = np.zeros(2), (np.array([n, m]) + 1) / 2
    if rng.random() < 0.7:
        crval = kw['crval'] = np.array([num(0, 360), num(-80, 80)])
    if rng.random() < 0.7:
        crpix = kw['crpix'] = (num(-3, 9), num(-3, 9))
    cunit = ['deg', 'deg']
    if rng.random() < 0.3:
        kw['cunit'] = [('arcsec', 'arcmin'), 'arcsec'][int(rng.integers(2))]
        cunit = ['arcsec', 'arcmin'] if isinstance(kw['cunit'], tuple) else ['arcsec', 'arcsec']
    ctype = ['RA---TAN', 'DEC--TAN']
    if rng.random() < 0.2 and how != 'cdelt':
        ctype = kw['ctype'] = ('GLON-TAN', 'GLAT-TAN')
    if rng.random() < 0.3:
        kw['equinox'], kw['radesys'] = 2000, 'fk5'
    if rng.random() < 0.3:
        kw['extname'] = ['', 'map'][int(rng.integers(2))]
    adt = np.dtype([float, 'f4', 'i4', 'i8', 'i2', 'u1', 'b1', '>f8'][int(rng.integers(8))])
    bitpix = {'f': -8, 'i': 8, 'u': 8, 'b': 8}[adt.kind] * adt.itemsize
    api = int(rng.integers(3))

    def f_header():
        if api == 0:
            h = wcsutils.create_fitsheader_for(np.ones((m, n), adt), **kw)
        elif api == 1:
            h = wcsutils.create_fitsheader((n, m), dtype='u1' if adt.kind == 'b' else adt, **kw)
        else:
            h = wcsutils.create_fitsheader([n, m], **kw)
        back = wcsutils.str2fitsheader(h.tostring())
        r = None
        if how != 'none' and (how != 'cdelt2' or d[0] < 0):
            r = wcsutils.get_cdelt_pa(h)
        return [(k, h[k]) for k in h], [h.tostring(), back.tostring()], r, wcsutils.has_wcs(h), wcsutils.fitsheader2shape(h)

    def o_header(r):
        h = dict(r[0])
        if r[1][0] != r[1][1]:
            return f'read back from a string: {r[1][1]} instead of {r[1][0]}'
        e = {'BITPIX': bitpix if api < 2 else -64, 'NAXIS': 2, 'NAXIS1': n, 'NAXIS2': m}
        e.update({'EXTNAME': kw['extname'], 'XTENSION': 'IMAGE', 'PCOUNT': 0, 'GCOUNT': 1} if 'extname' in kw else
                 {'SIMPLE': True, 'EXTEND': True})
        if how != 'none':
            e.update({'CRVAL1': crval[0], 'CRVAL2': crval[1], 'CRPIX1': crpix[0], 'CRPIX2': crpix[1], 'CTYPE1': ctype[0],
                      'CTYPE2': ctype[1], 'CUNIT1': cunit[0], 'CUNIT2': cunit[1]})
            if ctype[0][:2] == 'RA':
                e['RADESYS'] = kw.get('radesys', 'ICRS').upper()
            if 'equinox' in kw:
                e['EQUINOX'] = 2000
            g = np.array([[h.get('CD1_1', 9e9), h.get('CD1_2', 9e9)], [h.get('CD2_1', 9e9), h.get('CD2_2', 9e9)]])
            if not np.allclose(g, cd, rtol=1e-12, atol=1e-12):
                return f'{kw}: matrix {g} instead of {cd}'
            for k in ('CD1_1', 'CD1_2', 'CD2_1', 'CD2_2'):
                del h[k]
        if h != e:
            return f'{kw}: {h} instead of {e}'
        if r[3] != (how != 'none') or r[4] != (m, n):
            return f'has_wcs {r[3]}, shape {r[4]}'
        if r[2] is not None and how != 'cd':
            z = (r[2][1] - pa + 180) % 360 - 180
            if not np.allclose(r[2][0], d, rtol=1e-12) or abs(z) > 1e-9:
                return f'{kw}: scale and angle {r[2]}'

    sched('header', f_header, o_header, serial_only=True)


def combine(rng, sched):
    """The combined header encloses the maps, with the smallest pixels and the mean angle."""
    from pysimulators import wcsutils

    k = int(rng.integers(1, 5))
    c0 = np.array([rng.uniform(0, 360), rng.uniform(-60, 60)])
    pas = rng.uniform(-60, 60) + rng.uniform(-20, 20, k)
    ds = rng.choice([0.01, 0.02, 0.05], size=k)
    sizes = rng.integers(1, 12, size=(k, 2))
    vals = c0 + rng.uniform(-0.5, 0.5, (k, 2))
    vals[:, 0] %= 360
    pas += rng.choice([0, 0, 180, 120, 90, -150])
    old = rng.random() < 0.3
    kw = {}
    if rng.random() < 0.4:
        kw['cdelt'] = 0.03
    if rng.random() < 0.4 or k == 1:
        kw['pa'] = 20.0

    def f_combine():
        hs = []
        for i in range(k):
            h = wcsutils.create_fitsheader(sizes[i], cdelt=ds[i], pa=pas[i], crval=vals[i])
            hs.append(h)
        before = [h.tostring() for h in hs]
        r = wcsutils.combine_fitsheader(tuple(hs) if k > 1 or old else hs[0], **kw)
        assert [h.tostring() for h in hs] == before, 'the headers are altered'
        return {a: r[a] for a in r}, [{a: h[a] for a in h} for h in hs]

    def o_combine(r):
        h, hs = r
        d = kw.get('cdelt', ds.min())
        pa = kw.get('pa', pas.mean())  # they are close to one another
        t = -np.radians(pa)
        e = np.diag([-d, d]) @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        g = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
        if np.abs(g - e).max() > 1e-7 * d + 1e-12:
            return f'matrix {g} instead of {e}'
        lo, hi = np.full(2, np.inf), np.full(2, -np.inf)
        for q in hs:
            for x in (0.5, q['NAXIS1'] + 0.5):
                for y in (0.5, q['NAXIS2'] + 0.5):
                    p = np.array(tan_pixel(*tan_sky(x, y, q), h))
                    lo, hi = np.minimum(lo, p), np.maximum(hi, p)
        s = np.array([h['NAXIS1'], h['NAXIS2']])
        if np.any(lo < 0.5 - 1e-4) or np.any(hi > s + 0.5 + 1e-4):
            return f'from {lo} to {hi} is not in a map of {s}'
        if np.any(lo > 1.5 + 1e-4) or np.any(hi < s - 0.5 - 1e-4):
            return f'from {lo} to {hi} in a map of {s}: larger than required'

    sched('combine', f_combine, o_combine, serial_only=True)


pin = ompcheck.pin(sys.modules[__name__])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if 'plan' not in c and len(c['ops']) > 1:
        for o in c['ops']:
            yield dict(c, ops=[o])
    yield from ompcheck.shrink_keys(c, {
        'm': [1, 2, 3], 'n': [1, 2, 3], 'T': [2], 'out': [False], 'default': [True], 'dt': ['f8'], 'nan': [0.0],
        'fine': [False],
    })
