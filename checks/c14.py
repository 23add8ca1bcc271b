"""C14: compiled kernels for the instrument packages."""

import os
import sys

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C14'
RULE = (
    'A case is 2-8 threads, a few map headers (pixel size, reference point, rotation given by a CD matrix or by CROTA2, '
    'cards before and after the keywords) and a sequence of calls of the kernels which project detectors on maps (map '
    'extent, nearest pixel, pixels overlapped by the detector outlines with enough or too few columns, masked '
    'pointings), rotate polarised beams, compute distances and search pixels, some of them with a header which is '
    'refused (missing keyword, incomplete CD matrix, unknown projection). Each call is run on one thread over two '
    'contents of the uninitialised memory, then under seeded schedules of the threads. Non-trivial: a region ran on '
    'several threads. Distinct: by the interleavings taken.'
)
REAL = ['src/flib/wcsutils.f90', 'src/flib/module_wcs.f90', 'src/flib/module_fitstools.f90',
        'src/flib/module_pointingmatrix.f90', 'src/flib/pointingmatrix_old.f90', 'src/flib/module_geometry.f90.j2',
        'src/flib/bi.f90.j2', 'src/flib/datautils.f90.j2', 'the wrappers of f2py', 'numpy']
STUB = ['the OpenMP runtime (SimOMP)', 'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (6000, 40), 'thorough': (300000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

OPS = ['ad', 'minmax', 'minmax', 'nearest', 'nearest', 'edges', 'edges', 'edges', 'rot2d', 'rot3d', 'wrot3d', 'vectors',
       'roi', 'intersects', 'distance', 'bad']


def generate(rng, tier):
    c = {
        'T': rng.choice([2, 3, 4, 4, 8]), 'K': 3 if tier == 'quick' else 5,
        'nh': rng.choice([1, 2, 3]), 'ndet': rng.choice([1, 2, 3, 5]), 'nt': rng.choice([1, 1, 2, 3, 5, 8, 8]),
        'nv': rng.choice([3, 4, 4, 5, 7]), 'npps': rng.choice([1, 2, 4, 9, 30]), 'masked': rng.choice([0.0, 0.2, 0.6]),
        'crota': rng.random() < 0.4, 'spread': rng.choice([0.5, 2.0, 6.0]), 'pad': rng.choice([0, 0, 3, 40]),
        'dseed': rng.getrandbits(31), 'sseed': rng.getrandbits(31),
    }
    c['ops'] = [[rng.choice(OPS), rng.randrange(c['nh']), rng.choice(['naxis1', 'crpix2', 'cd', 'ctype', 'cdelt'])]
                for _ in range(rng.choice([2, 3, 4]))]
    return c


# ------------------------------------------------------------------- oracles


def make_header(rng, c):
    """The keywords of a map header."""
    nx, ny = (int(v) for v in rng.integers(1, 9, size=2))
    cd = float(rng.choice([1 / 64, 1 / 16, 1 / 4]))
    w = {'naxis1': nx, 'naxis2': ny, 'crpix1': float(rng.integers(-4, 20)) / 2, 'crpix2': float(rng.integers(-4, 20)) / 2,
         'crval1': float(rng.integers(0, 720)) / 2, 'crval2': float(rng.integers(-120, 121)) / 2,
         'ctype1': 'RA---TAN', 'ctype2': 'DEC--TAN', 'cunit1': 'deg', 'cunit2': 'deg'}
    t = np.radians(float(rng.choice([0, 0, 90, -30, 45, 211])))
    s1, s2 = -cd, cd * float(rng.choice([1, 1, 2]))
    if c['crota']:
        w.update(cdelt1=s1, cdelt2=s2)
        if t or rng.random() < 0.5:
            w['crota2'] = float(np.degrees(t))
    else:
        w.update(cd1_1=s1 * np.cos(t), cd1_2=-s2 * np.sin(t), cd2_1=s1 * np.sin(t), cd2_2=s2 * np.cos(t))
    if rng.random() < 0.3:
        del w['cunit1'], w['cunit2']
    w['scale'] = cd
    return w


def header_string(w, pad):
    from astropy.io import fits

    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = 2
    keys = [k for k in w if k != 'scale']
    for k in keys[:4]:
        h[k.upper()] = w[k]
    for i in range(pad):
        h[f'FILL{i}'] = (i, "it's / filling")
    for k in keys[4:]:
        h[k.upper()] = (w[k], 'a comment / with a slash')
    return h.tostring()


def object2ad(xy, ra, dec, pa):
    xy = np.asarray(xy, np.longdouble) / 3600
    t = np.radians(np.longdouble(pa))
    d = dec + (-xy[..., 0] * np.sin(t) + xy[..., 1] * np.cos(t))
    return np.stack([ra + (xy[..., 0] * np.cos(t) + xy[..., 1] * np.sin(t)) / np.cos(np.radians(d)), d], -1)


def ad2xy(w, ad):
    """Pixel coordinates, (0, 0) being the centre of the first pixel, and cosine of the distance."""
    if 'cd1_1' in w:
        cd = np.array([[w['cd1_1'], w['cd1_2']], [w['cd2_1'], w['cd2_2']]], np.longdouble)
    else:
        t = np.radians(np.longdouble(w.get('crota2', 0)))
        cd = np.array([[w['cdelt1'] * np.cos(t), -w['cdelt2'] * np.sin(t)], [w['cdelt1'] * np.sin(t), w['cdelt2'] * np.cos(t)]])
    L, B = np.radians(ad[..., 0]), np.radians(ad[..., 1])
    L0, B0 = np.radians(np.longdouble(w['crval1'])), np.radians(np.longdouble(w['crval2']))
    v = np.stack([np.cos(B) * np.cos(L), np.cos(B) * np.sin(L), np.sin(B)], -1)
    n = np.array([np.cos(B0) * np.cos(L0), np.cos(B0) * np.sin(L0), np.sin(B0)])
    east = np.array([-np.sin(L0), np.cos(L0), 0 * L0])
    north = np.array([-np.sin(B0) * np.cos(L0), -np.sin(B0) * np.sin(L0), np.cos(B0)])
    cosc = v @ n
    u = np.degrees(np.stack([v @ east, v @ north], -1) / cosc[..., None])
    det = cd[0, 0] * cd[1, 1] - cd[0, 1] * cd[1, 0]
    x = (cd[1, 1] * u[..., 0] - cd[0, 1] * u[..., 1]) / det + np.longdouble(w['crpix1']) - 1
    y = (-cd[1, 0] * u[..., 0] + cd[0, 0] * u[..., 1]) / det + np.longdouble(w['crpix2']) - 1
    return np.stack([x, y], -1), cosc


def clip(poly, axis, bound, sign):
    out = []
    for p, q in zip(poly, poly[1:] + poly[:1]):
        a, b = sign * (p[axis] - bound), sign * (q[axis] - bound)
        if a >= 0:
            out.append(p)
        if a * b < 0:
            t = a / (a - b)
            r = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]
            r[axis] = bound
            out.append(tuple(r))
    return out


def area(poly):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(poly, poly[1:] + poly[:1])) / 2 if len(poly) > 2 else 0.0


def overlaps(poly, nx, ny):
    """Surface of the intersection of a polygon with each pixel of a map."""
    out = np.zeros((ny, nx))
    poly = [(float(x), float(y)) for x, y in poly]
    for iy in range(max(0, int(min(p[1] for p in poly)) - 1), min(ny, int(max(p[1] for p in poly)) + 3)):
        row = clip(clip(poly, 1, iy - 0.5, 1), 1, iy + 0.5, -1)
        if not row:
            continue
        for ix in range(max(0, int(min(p[0] for p in row)) - 1), min(nx, int(max(p[0] for p in row)) + 3)):
            out[iy, ix] = abs(area(clip(clip(row, 0, ix - 0.5, 1), 0, ix + 0.5, -1)))
    return out.ravel()


def check_rows(m, outlines, nx, ny, npps, new, outside, masked=None, eps=2e-6):
    """
    m: (detectors, samples, columns) records, outlines: (detectors, samples, vertices, 2), in pixels.
    """
    lo = hi = 0
    must = may = False
    for i in np.ndindex(m.shape[:-1]):
        idx, val = m['index'][i], m['value'][i]
        if masked is not None and masked[i[1]]:
            if np.any(idx != -1) or np.any(val != 0):
                return f'the masked pointing {i[1]} is {idx} {val} for the detector {i[0]}'
            continue
        p = outlines[i]
        a = overlaps(p, nx, ny)
        f = lambda v, e: np.floor(v + 0.5 + e)
        l, h = p.min(axis=0), p.max(axis=0)
        size = np.array([nx, ny])
        must |= bool(np.any(f(l, 1e-7) < 0) or np.any(-f(-h, 1e-7) > size - 1))
        may |= bool(np.any(f(l, -1e-7) < 0) or np.any(-f(-h, -1e-7) > size - 1))
        n = int((a > eps).sum())
        k = int(np.prod(np.clip(h + 2 - l, 0, None).astype(int) + 1))
        lo, hi = max(lo, n), max(hi, min(int((a > 0).sum()) + sum(a <= eps), k))
        used = idx != -1
        j = int(used.sum())
        if np.any(used[j:]) or np.any(idx[j:] != -1) or np.any(val[j:] != 0):
            return f'unused columns: {idx} {val}'
        if np.any(idx[:j] < 0) or np.any(idx[:j] >= nx * ny) or len(set(idx[:j].tolist())) != j:
            return f'indices {idx[:j]} in a map of {ny} x {nx} pixels'
        bad = np.abs(val[:j] - a[idx[:j]]) > eps
        if bad.any():
            return f'detector {i[0]}, pointing {i[1]}: pixels {idx[:j]}, weights {val[:j]} instead of {a[idx[:j]]}'
        lost = set(np.flatnonzero(a > eps).tolist()) - set(idx[:j].tolist())
        if lost and j < npps:
            return f'detector {i[0]}, pointing {i[1]}: the pixels {lost} are missing'
    if not lo <= new <= max(hi, lo):
        return f'{new} columns said to be required instead of {lo}-{hi}'
    if must and not outside or outside and not may:
        return f'outside: {outside}'
    return None


# ----------------------------------------------------------------------- run


def quiet(f):
    """The kernels write on the standard error why they refuse a header."""

    def wrapper():
        saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
        try:
            os.dup2(null, 2)
            return f()
        finally:
            os.dup2(saved, 2)
            os.close(saved)
            os.close(null)

    return wrapper


def run(c, ns):
    from pysimulators import _flib

    info = Info()
    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    sched = ompcheck.Sched(c, ns, info)
    ndet, nt, nv, npps = c['ndet'], c['nt'], c['nv'], c['npps']
    headers = [make_header(rng, c) for _ in range(c['nh'])]
    strings = [header_string(w, c['pad']) for w in headers]
    W = _flib.wcsutils

    def pointings(w):
        s = w['scale'] * c['spread']
        ra = w['crval1'] + rng.uniform(-s, s, nt) / np.cos(np.radians(w['crval2']))
        dec = w['crval2'] + rng.uniform(-s, s, nt)
        return ra, dec, rng.choice([0, 90, 30, -75.5, 180], size=nt).astype(float)

    def layout(w, nv=None):
        """Positions of the detectors, or of their vertices, in arc seconds."""
        s = w['scale'] * 3600
        xy = rng.uniform(-2 * s, 2 * s, (ndet, 2))
        if nv is None:
            return xy
        a = np.sort(rng.uniform(0, 2 * np.pi, (ndet, nv)), axis=1)
        if rng.random() < 0.3:
            a = a[:, ::-1]
        r = rng.uniform(0.2, 2, (ndet, nv)) * s * rng.choice([0.3, 1])
        return xy[:, None] + np.stack([r * np.cos(a), r * np.sin(a)], -1)

    def records(*shape):
        m = np.empty(shape, [('index', 'i4'), ('value', 'f4')])
        m['index'] = 7777
        m['value'] = 55
        return m

    def flat(m):
        return m.reshape(-1).view(np.int64)

    for name, ih, what in c['ops']:
        w, s = headers[ih], strings[ih]
        nx, ny = w['naxis1'], w['naxis2']
        bad = name == 'bad'
        if bad:
            name = ['minmax', 'nearest', 'edges'][int(rng.integers(3))]
            w2 = dict(w)
            if what in ('naxis1', 'crpix2'):
                del w2[what]
            elif what == 'cd':
                for k in ('cdelt1', 'cdelt2', 'crota2', 'cd1_1', 'cd1_2', 'cd2_1', 'cd2_2'):
                    w2.pop(k, None)
                w2['cd1_2'] = 0.0
            elif what == 'cdelt':
                for k in ('cdelt2', 'crota2', 'cd1_1', 'cd1_2', 'cd2_1', 'cd2_2'):
                    w2.pop(k, None)
            else:
                w2['ctype1'] = 'GLON-TAN'
            # another map, so that what it leaves behind would be seen
            w2['crpix1'] += 3
            w2['crval1'] = (w2['crval1'] + 40) % 360
            s = header_string(w2, c['pad'])
            info.faults['refused_header'] += 1
        if name in ('ad', 'minmax', 'nearest', 'edges'):
            ra, dec, pa = pointings(w)
            masked = rng.random(nt) < c['masked']
        if name == 'ad':
            if not nt:
                continue
            xy = layout(w)

            def f_ad():
                out = np.full((ndet, 2), 99.0)
                W.object2ad(xy.T, out.T, ra[0], dec[0], pa[0])
                return out

            sched('ad', f_ad, object2ad(xy, ra[0], dec[0], pa[0]).astype(float), tol=(1e-12, 1e-10))
        elif name == 'minmax':
            xy = layout(w)

            def f_minmax():
                r = W.object2xy_minmax(xy.T, ra, dec, pa, s)
                return (0.0, 0.0, 0.0, 0.0, r[4]) if r[4] else r

            if bad:
                sched('minmax', quiet(f_minmax), lambda r: None if r[4] else 'the header was not refused', serial_only=True)
                continue
            p = np.array([ad2xy(w, object2ad(xy, *q))[0] for q in zip(ra, dec, pa)]).reshape((-1, 2))
            e = (p.min(axis=0), p.max(axis=0)) if nt else (np.full(2, np.inf), np.full(2, -np.inf))
            e = tuple(float(v) for v in (*e[0], *e[1])) + (0,)
            sched('minmax', f_minmax, e, tol=(1e-9, 1e-7))
        elif name == 'nearest':
            xy = layout(w)
            surf = rng.uniform(0.5, 2, ndet)

            def f_nearest():
                m = records(ndet, nt, 1)
                r = W.object2pmatrix_nearest_neighbour(xy.T, surf, ra, dec, pa, masked, s, flat(m))
                if r[1]:
                    m['index'], m['value'] = 0, 0
                # the weights of the detectors outside the map are not used
                m['value'][(m['index'] == -1) & ~masked[None, :, None]] = 0
                return m['index'].copy(), m['value'].copy(), bool(r[0]), bool(r[1])

            if bad:
                sched('nearest', quiet(f_nearest), lambda r: None if r[3] else 'the header was not refused', serial_only=True)
                continue

            def o_nearest(r):
                must = may = False
                for j in range(nt):
                    if masked[j]:
                        if np.any(r[0][:, j] != -1) or np.any(r[1][:, j] != 0):
                            return f'the masked pointing {j} is {r[0][:, j]} {r[1][:, j]}'
                        continue
                    p, cosc = ad2xy(w, object2ad(xy, ra[j], dec[j], pa[j]))
                    for i in range(ndet):
                        k = np.floor(p[i] + 0.5).astype(int)
                        sure = np.all(np.abs(p[i] + 0.5 - np.round(p[i] + 0.5)) > 1e-6)
                        inside = 0 <= k[0] < nx and 0 <= k[1] < ny
                        may |= not inside or not sure
                        if not sure:
                            continue
                        must |= not inside
                        q = k[0] + k[1] * nx if inside else -1
                        if r[0][i, j, 0] != q:
                            return f'detector {i}, pointing {j} at {p[i]}: pixel {r[0][i, j, 0]} instead of {q}'
                        v = float(surf[i] / cosc[i] ** 3)
                        if inside and abs(r[1][i, j, 0] - v) > 1e-6 * v:
                            return f'detector {i}, pointing {j}: weight {r[1][i, j, 0]} instead of {v}'
                if must and not r[2] or r[2] and not may or r[3]:
                    return f'outside: {r[2]}, status {r[3]}'

            sched('nearest', f_nearest, o_nearest)
        elif name == 'edges':
            xy = layout(w, nv)

            def f_edges():
                m = records(ndet, nt, npps)
                r = W.object2pmatrix_sharp_edges(xy.transpose(2, 1, 0), ra, dec, pa, masked, s, flat(m), npps)
                if r[2]:
                    m['index'], m['value'] = 0, 0
                return m['index'].copy(), m['value'].copy(), int(r[0]), bool(r[1]), bool(r[2])

            if bad:
                sched('edges', quiet(f_edges), lambda r: None if r[4] else 'the header was not refused', serial_only=True)
                continue
            p = np.array([ad2xy(w, object2ad(xy, *q))[0] for q in zip(ra, dec, pa)]).astype(float)
            p = p.reshape((nt, ndet, nv, 2)).transpose(1, 0, 2, 3)

            def o_edges(r):
                m = records(ndet, nt, npps)
                m['index'], m['value'] = r[0], r[1]
                return 'status' if r[4] else check_rows(m, p, nx, ny, npps, r[2], r[3], masked)

            sched('edges', f_edges, o_edges)
            info.probes['too_few_columns'] += sched.last[2] > npps
        elif name == 'roi':
            p = rng.uniform(-1, 6, (ndet, 1, 1, 2)) + layout({'scale': 1 / 3600}, nv)[:, None]
            f = lambda v: np.floor(v + 0.5).astype(np.int32)
            l, h = p[:, 0].min(axis=1), p[:, 0].max(axis=1)
            roi = np.stack([f(l), -f(-h)], 1)

            def f_roi():
                m = records(ndet, npps)
                r = _flib.pointingmatrix.roi2pmatrix_cartesian(roi.T, p[:, 0].transpose(2, 1, 0), npps, nx, ny, flat(m))
                return m['index'].copy(), m['value'].copy(), int(r[0]), bool(r[1])

            def o_roi(r):
                m = records(ndet, 1, npps)
                m['index'], m['value'] = r[0][:, None], r[1][:, None]
                return check_rows(m, p, nx, ny, npps, r[2], r[3])

            sched('roi', f_roi, o_roi)
        elif name in ('rot2d', 'rot3d', 'wrot3d'):
            it, rt = [('i4', 'f4'), ('i4', 'f8'), ('i8', 'f4'), ('i8', 'f8')][int(rng.integers(4))]
            npix = int(rng.integers(1, 5))
            q = rng.normal(size=(nt, 4))
            q /= np.sqrt((q**2).sum(axis=1, keepdims=True))
            a, b, g, d = q.T
            R = np.array([[a * a + b * b - g * g - d * d, 2 * (b * g - a * d), 2 * (b * d + a * g)],
                          [2 * (b * g + a * d), a * a - b * b + g * g - d * d, 2 * (g * d - a * b)],
                          [2 * (b * d - a * g), 2 * (g * d + a * b), a * a - b * b - g * g + d * d]]).transpose(2, 0, 1).copy()
            e = rng.normal(size=(ndet, npix, 3))
            e /= np.sqrt((e**2).sum(axis=-1, keepdims=True))
            vals = rng.uniform(0.5, 2, (ndet, npix))
            wt = rng.uniform(0.5, 2, (ndet, nt, npix))
            fields = ['r11', 'r21'] if name == 'rot2d' else ['r11', 'r22', 'r32']
            idx = rng.integers(0, 1000, size=(ndet, nt, npix))

            def basis(n):
                h = np.hypot(n[..., 0], n[..., 1])
                ephi = np.stack([-n[..., 1], n[..., 0], 0 * h], -1) / h[..., None]
                return np.cross(ephi, n), ephi

            ei = np.einsum('tji,dpj->dtpi', R, e)
            if np.hypot(e[..., 0], e[..., 1]).min() < 1e-2 or (nt and np.hypot(ei[..., 0], ei[..., 1]).min() < 1e-2):
                continue
            th, ph = (v[:, None] for v in basis(e))
            rp = np.einsum('tij,dtpj->dtpi', R, basis(ei)[1])
            cs, sn = (ph * rp).sum(axis=-1), (th * rp).sum(axis=-1)
            v = vals[:, None] * (wt if name == 'wrot3d' else np.ones_like(wt))
            ex = [v * (cs**2 - sn**2), v * 2 * cs * sn]
            if name != 'rot2d':
                ex = [v] + ex
            fn = getattr(_flib.bi, {'rot2d': 'matrix_rot2d', 'rot3d': 'matrix_rot3d', 'wrot3d': 'weighted_matrix_rot3d'}[name]
                         + f'_i{it[1]}_r{rt[1]}')

            def f_rot():
                m = np.empty((ndet, nt, npix), [('index', it)] + [(k, rt) for k in fields])
                for k in fields:
                    m[k] = 88
                m['index'] = idx
                args = (R.T, e.T, m.reshape(-1).view(np.int8), vals.T)
                fn(*args, wt.T) if name == 'wrot3d' else fn(*args)
                return (m['index'].copy(),) + tuple(m[k].copy() for k in fields)

            t = 2e-6 if rt == 'f4' else 1e-10

            def o_rot(r):
                if np.any(r[0] != idx):
                    return 'the indices are altered'
                return ompcheck.same(tuple(x.astype(float) for x in r[1:]), tuple(ex), (t, t))

            sched(name, f_rot, o_rot)
        elif name == 'vectors':
            n = rng.normal(size=3)
            n /= np.sqrt((n**2).sum())
            h = np.hypot(n[0], n[1])
            if h < 1e-2:
                continue
            ephi = np.array([-n[1], n[0], 0]) / h
            m = rng.normal(size=(3, 3))
            o = rng.normal(size=3)
            B = _flib.bi
            sched('vectors', lambda: (B.en2ephi(n), *B.en2etheta_ephi(n), B.rot_ephi(m.T, o[:2]), B.rotinv_e(m.T, o)),
                  (ephi[:2], np.cross(ephi, n), ephi[:2], m[:, :2] @ o[:2], m.T @ o), tol=(1e-11, 1e-11), serial_only=True)
        elif name == 'intersects':
            m = records(ndet, nt, npps)
            m['index'] = rng.integers(-1, 12, size=m.shape)
            k = int(rng.integers(0, 12))
            fn = _flib.pointingmatrix.intersects_openmp2
            sched('intersects', lambda: bool(fn(flat(m), k, npps, nt, ndet)), bool(np.any(m['index'] == k)))
        elif name == 'distance':
            dt = ['f4', 'f8'][int(rng.integers(2))]
            og, sc = rng.integers(-8, 30, size=2) / 4, rng.integers(1, 9, size=2) / 4
            x2, y2 = (sc[0] * (np.arange(nx) - og[0])) ** 2, (sc[1] * (np.arange(ny) - og[1])) ** 2
            q = y2[:, None] + x2
            D = lambda n: getattr(_flib.datautils, f'{n}_r{dt[1]}')

            def f_distance():
                a, b = np.full(nx, 99, dt), np.full(nx, 99, dt)
                p, q = np.full((ny, nx), 99, dt), np.full((ny, nx), 99, dt)
                D('distance_1d')(a, og[0], sc[0])
                D('distance2_1d')(b, og[0], sc[0] ** 2)
                D('distance_2d')(p.T, og, sc)
                D('distance2_2d')(q.T, og, sc**2)
                return a, b, p, q

            sched('distance', f_distance, (np.sqrt(x2), x2, np.sqrt(q), q), tol=(1e-6, 1e-6) if dt == 'f4' else (1e-14, 0))
        else:
            raise ValueError(name)
    info.nontrivial = info.stats['steps'] > 0
    return info


pin = ompcheck.pin(sys.modules[__name__])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if 'plan' not in c and len(c['ops']) > 1:
        for i in range(len(c['ops'])):
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    yield from ompcheck.shrink_keys(c, {
        'ndet': [1, 2, 3], 'nt': [1, 2, 3], 'nv': [3], 'T': [2], 'masked': [0.0], 'pad': [0], 'crota': [False], 'npps': [30, 9],
    })
