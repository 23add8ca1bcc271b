"""C18: derived coordinates of layouts, pointings and scenes, through histories of distributed tables."""

import copy
import pickle

import numpy as np

from checks import c11
from sim import mpicheck
from sim.core import Info, Violation

PROPERTY = 'C18'
RULE = (
    'A case is a layout, a sampling, a scene or an imager, with generated parameters, a job of 1-4 ranks, and a seeded '
    'history of operations on it: selections, assignments of whole or of parts of attributes, of derived attributes, of the '
    'period, date and location of the observation, copies, scattering and gathering, over poisoned memory. After each of '
    'them, every derived attribute is compared with its definition. Non-trivial: the history has an operation, or the job '
    'two ranks. Distinct: by the scheduling choices taken and by the table and its history.'
)
REAL = ['pysimulators.packedtables (core, layouts, samplings, scenes)', 'pysimulators.geometry and its Fortran kernels',
        'pysimulators.operators (coordinates)', 'pysimulators.wcsutils', 'pysimulators.instruments', 'pyoperators', 'astropy',
        'numpy']
STUB = ['mpi4py (SimMPI)', 'the allocator of numpy arrays (contents of fresh memory)',
        'the OpenMP runtime (SimOMP, one thread here)']
BUDGET = {'quick': (6000, 40), 'thorough': (300000, 1200)}
ASSUMPTIONS = ['the sidereal time of the horizontal coordinates is the linear one of the package (mean sidereal time)']

KINDS = ['equatorial', 'equatorial', 'horizontal', 'horizontal', 'spherical', 'sampling', 'grid', 'grid', 'squares', 'squares',
         'layout', 'scenegrid', 'scene', 'fits', 'fits', 'imager', 'refuse']
OPS = ['select', 'select', 'set', 'set', 'inplace', 'override', 'period', 'date', 'copy', 'scatter', 'gather', 'split', 'all',
       'center', 'again']


def generate(rng, tier):
    kind = 'velocity' if rng.random() < 0.01 else rng.choice(KINDS)
    return {'n': rng.choice([1, 1, 2, 3, 4]), 'wseed': rng.getrandbits(32), 'kind': kind, 'seed': rng.getrandbits(31),
            'mem': rng.randint(1, 4), 'ops': [[rng.choice(OPS), rng.getrandbits(20)] for _ in range(rng.randint(1, 7))]}


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    if c['n'] > 1:
        yield dict(c, n=1)
        yield dict(c, n=c['n'] - 1)


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)


def check(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def close(a, b, cls, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f'{what}: shape {a.shape}, not {b.shape}')
    if a.size and a.dtype.kind == 'O':
        raise Violation(cls, f'{what}: {a!r}')
    scale = np.max(np.abs(b[np.isfinite(b)]), initial=1)
    if not np.allclose(a, b, rtol=tol, atol=tol * scale, equal_nan=True):
        raise Violation(cls, f'{what}: {a.tolist()} is not {b.tolist()}'[:900])


def cart(lon, lat):
    return c11.cart(np.stack([np.asarray(lon, float), np.asarray(lat, float)], axis=-1), 'azimuth,elevation', True)


def directions(a, v, cls, what, tol=1e-8):
    """Longitudes and latitudes in degrees, against vectors."""
    a = np.asarray(a)
    check(a.shape == v.shape[:-1] + (2,), cls, f'{what}: shape {a.shape}, not {v.shape[:-1] + (2,)}')
    check(a.dtype.kind == 'f' or a.size == 0, cls, f'{what}: dtype {a.dtype}')
    check(not a.size or np.all(np.abs(a[..., 1]) <= 90 + 1e-9), cls, f'{what}: latitudes {a[..., 1]}')
    w = cart(a[..., 0], a[..., 1])
    check(np.allclose(w, v, rtol=0, atol=tol), cls, f'{what}: {a.tolist()} are the directions {w.tolist()}, not {v.tolist()}')


class Model:
    """What a local table should be: the indices of its elements, its attributes, and what was assigned to derived ones."""

    def __init__(self, index, attrs, **kw):
        self.index = np.asarray(index)
        self.attrs = attrs
        self.over = {}
        self.__dict__.update(kw)

    def __len__(self):
        return len(self.index)

    def copy(self):
        out = copy.copy(self)
        out.attrs = {k: np.array(v) for k, v in self.attrs.items()}
        out.over = {k: np.array(v) for k, v in self.over.items()}
        return out

    def select(self, pos):
        out = self.copy()
        n = len(self)
        out.index = self.index[pos]
        for d in (out.attrs, out.over):
            for k, v in d.items():
                d[k] = v[pos] if v.ndim and len(v) == n else v
        return out

    def full(self, k):
        """The attribute of every element."""
        v = self.attrs[k]
        return v if v.ndim else np.full(len(self), v)


def setup(ns):
    import pysimulators as ps

    class SubHorizontal(ps.SamplingHorizontal):
        DEFAULT_LATITUDE = 12.5
        DEFAULT_LONGITUDE = -30.25
        DEFAULT_DATE_OBS = '2011-02-03T04:05:06'
        DEFAULT_PERIOD = 0.125

    class SubLayout(ps.Layout):
        def vertex(self):
            return self.corner[:, None, :] + np.array([[0, 0], [1, 0], [1, 2.0]])

        def double(self):
            return self.index * 2

    ns.SubHorizontal, ns.SubLayout = SubHorizontal, SubLayout
    globals().update(SubHorizontal=SubHorizontal, SubLayout=SubLayout)
    SubHorizontal.__qualname__, SubLayout.__qualname__ = 'SubHorizontal', 'SubLayout'
    SubHorizontal.__module__ = SubLayout.__module__ = __name__


# ------------------------------------------------------------------ tables
def numbers(g, n, lo, hi):
    """A number for all, or an array of one of several types."""
    k = int(g.integers(6))
    if k == 0:
        return float(np.round(g.uniform(lo, hi), 3))
    v = g.uniform(lo, hi, n)
    if k == 1:
        return v.astype('f4')
    if k == 2:
        return v.astype(int)
    if k == 3:
        return v.astype(int).tolist()
    return v


def angles(g, n):
    lon, lat, ang = numbers(g, n, -180, 360), numbers(g, n, -85, 85), numbers(g, n, 0, 90)
    return lon, lat, ang


def sampling(g, ns, kind):
    import pysimulators as ps
    from astropy.time import Time

    n = int(g.choice([1, 2, 3, 5, 8]))
    kw, attrs, par = {}, {}, {}
    # date and time
    k = int(g.integers(4))
    date = f'20{int(g.integers(10, 30))}-0{int(g.integers(1, 9))}-1{int(g.integers(9))} 0{int(g.integers(9))}:30:15.250'
    default = {'horizontal': SubHorizontal}.get(kind, ps.Sampling)
    sub = kind == 'horizontal' and g.random() < 0.5
    dflt = SubHorizontal if sub else ps.Sampling
    if k == 0:
        par['jd'] = Time(dflt.DEFAULT_DATE_OBS, scale='utc').jd
    else:
        par['jd'] = Time(date, scale='utc').jd
        kw['date_obs'] = [date, Time(date, scale='utc'), Time([date], scale='utc')][k - 1]
        if k == 2 and g.random() < 0.5:
            kw['date_obs'] = Time(Time(date, scale='utc').jd, format='jd', scale='utc')
    del default
    par['period'] = float(dflt.DEFAULT_PERIOD)
    if g.random() < 0.5:
        kw['time'] = np.cumsum(g.integers(1 if g.random() < 0.5 else -1500, 2000, n) / 8.0)
        attrs['time'] = np.array(kw['time'])
        if n > 1:
            par['period'] = float(np.median(np.diff(kw['time'])))
    if g.random() < 0.5:
        kw['period'] = par['period'] = float(g.integers(1, 50)) / 16
    masked = g.integers(0, 3, n) == 0
    if g.random() < 0.5:
        kw['masked'] = masked
        attrs['masked'] = masked
    elif g.random() < 0.2:
        kw['masked'] = True
        attrs['masked'] = np.array(True)
    else:
        attrs['masked'] = np.array(False)
    if kind == 'sampling':
        t = ps.Sampling(n, **kw)
        return t, Model(np.arange(n), attrs, kind=kind, names=(), **par)
    names = {'equatorial': ('ra', 'dec', 'pa'), 'horizontal': ('azimuth', 'elevation', 'pitch'),
             'spherical': ('precession', 'nutation', 'intrinsic_rotation')}[kind]
    if kind == 'spherical' and g.random() < 0.4:
        names = ('alpha', 'beta', 'gamma')
        kw['names'] = names
    val = list(angles(g, n))
    way = int(g.integers(4))
    if way in (1, 3):
        # the last angle has a default value
        val[2] = 0
    number = g.random() < 0.5
    if n > 1 and 'time' not in kw and (way < 2 or not number) and all(np.ndim(v) == 0 for v in val):
        # nothing would give the number of pointings
        val[int(g.integers(2))] = g.uniform(0, 85, n)
    if way == 0:
        args = val
    elif way == 1:
        args = val[:2]
    else:
        args = [n] if number else []
        kw.update(zip(names, val if way == 2 else val[:2]))
    for k_, v in zip(names, val):
        attrs[k_] = np.array(v)
    if kind == 'equatorial':
        t = ps.SamplingEquatorial(*args, **kw)
    elif kind == 'spherical':
        t = ps.SamplingSpherical(*args, **kw)
    else:
        par['lat'], par['lon'] = 12.5, -30.25
        if not sub or g.random() < 0.5:
            par['lat'], par['lon'] = float(np.round(g.uniform(-80, 80), 2)), float(np.round(g.uniform(-180, 180), 2))
            if g.random() < 0.3:
                par[['lat', 'lon'][int(g.integers(2))]] = 0
            kw.update(latitude=par['lat'], longitude=par['lon'])
        t = (SubHorizontal if sub else ps.SamplingHorizontal)(*args, **kw)
    check(len(t) == n, 'length', f'{len(t)} pointings, not {n}')
    return t, Model(np.arange(n), attrs, kind=kind, names=names, **par)


def layout(g, ns, kind):
    import pysimulators as ps

    shape = (int(g.integers(1, 4)), int(g.integers(1, 5)))
    size = shape[0] * shape[1]
    kw, attrs, par = {}, {}, {'shape': shape, 'unit': ''}
    index = np.arange(size)
    if g.random() < 0.4:
        sel = g.random(shape) < 0.7
        kw['selection'] = sel
        index = index[sel.ravel()]
    if g.random() < 0.3:
        order = g.permutation(size).reshape(shape)
        kw['ordering'] = order
        index = np.array(sorted(index, key=lambda i: order.ravel()[i]), int)
    if kind == 'layout':
        c = g.uniform(-3, 3, shape + (2,))
        k = int(g.integers(3))
        if k == 0:
            t = ps.Layout(shape, center=c, **kw)
            attrs['center'] = c.reshape(-1, 2)[index]
        elif k == 1:
            v = g.uniform(-3, 3, shape + (int(g.integers(1, 8)), 2))
            t = ps.Layout(shape, vertex=v, **kw)
            attrs['vertex'] = v.reshape((-1,) + v.shape[2:])[index]
        else:
            t = SubLayout(shape, corner=c, double=None, **kw)
            attrs['corner'] = c.reshape(-1, 2)[index]
        return t, Model(index, attrs, kind=kind, **par)
    xr, yr, st = (bool(g.integers(2)) for _ in range(3))
    angle = float(g.choice([0, 90, 30, -45, 123.5]))
    origin = (float(g.integers(-4, 5)), float(g.integers(-4, 5)) / 4)
    spacing = float(g.integers(1, 9)) / 8
    ff = float(g.choice([1, 0.25, 0.5]))
    m, n = shape
    p = np.empty((m, n, 2))
    p[..., 0] = (np.arange(n) - (n - 1) / 2) * spacing
    p[..., 1] = -((np.arange(m) - (m - 1) / 2) * spacing)[:, None]
    if kind == 'squares':
        h = spacing * np.sqrt(ff) / 2
        p = p[..., None, :] + np.array([[h, h], [-h, h], [-h, -h], [h, -h]])
    p = p * [-1 if xr else 1, -1 if yr else 1]
    a = np.radians(angle)
    p = p @ np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]).T + origin
    u = int(g.integers(5))
    args = dict(xreflection=xr, yreflection=yr, angle=angle, startswith1=st, **kw)
    if u == 0:
        sp, org = spacing, origin
    elif u == 1:
        sp, org = ps.Quantity(spacing, 'mm'), origin
        par['unit'] = 'mm'
    elif u == 2:
        # in the unit of the spacing
        sp, org = ps.Quantity(spacing, 'mm'), ps.Quantity(origin, 'mm').tounit('um')
        par['unit'] = 'mm'
    elif u == 3:
        sp, org = spacing, ps.Quantity(origin, 'arcsec')
        par['unit'] = 'arcsec'
    elif kind == 'squares':
        sp, org = ps.Quantity(spacing, 'mm').tounit('m'), ps.Quantity(origin, 'mm')
        spacing, origin, p = spacing / 1000, tuple(o / 1000 for o in origin), p / 1000
        par['unit'] = 'm'
    else:
        # the radius gives the unit
        sp, org = spacing, origin
        par['unit'] = 'mm'
    if kind == 'squares':
        t = ps.LayoutGridSquares(shape, sp, filling_factor=ff, origin=org, **args)
        attrs['vertex'] = p.reshape(-1, 4, 2)[index]
    else:
        if g.random() < 0.3 or u == 4:
            r = float(g.integers(1, 9)) / 4
            args['radius'] = ps.Quantity(r, 'mm').tounit('um') if u in (1, 2) else ps.Quantity(r, 'mm') if u == 4 else r
            attrs['radius'] = np.array(r)
        if g.random() < 0.2:
            p = np.concatenate([p, np.full((m, n, 1), 3.5)], axis=-1)
            args['_z'] = 3.5
        t = ps.LayoutGrid(shape, sp, origin=org, **args)
        attrs['center'] = p.reshape(size, -1)[index]
    par['st'] = int(st)
    par['grid'] = spacing, origin, xr, yr, angle, st
    return t, Model(index, attrs, kind=kind, **par)


def scene(g, ns, kind):
    import pyoperators as po
    import pysimulators as ps
    from pysimulators import wcsutils

    shape = (int(g.integers(1, 4)), int(g.integers(1, 5)))
    st = bool(g.integers(2))
    kw, par = {}, {'shape': shape, 'st': int(st), 'dtype': np.dtype(['f8', 'f4', 'i4', 'c16'][int(g.integers(4))])}
    par['dtype'] = par['dtype'] if g.random() < 0.6 else np.dtype(float)
    if par['dtype'] != float or g.random() < 0.3:
        kw['dtype'] = par['dtype']
    par['origin'] = str(g.choice(['upper', 'lower', 'Lower', 'UPPER']))
    par['header'] = par['matrix'] = None
    if g.random() < 0.4:
        kw['nside'] = par['nside'] = int(g.integers(1, 9))
    if kind == 'fits':
        cdelt = float(g.uniform(0.05, 1))
        h = wcsutils.create_fitsheader(
            shape[::-1], cdelt=[-cdelt, cdelt], crval=[float(g.uniform(0, 360)), float(g.uniform(-80, 80))],
            crpix=[float(g.uniform(-3, 8)), float(g.uniform(-3, 8))], pa=float(g.uniform(0, 90)))
        if st:
            kw['startswith1'] = st
        t = ps.SceneGrid.fromfits(h, **kw)
        par['origin'], par['header'] = 'lower', h
    else:
        if g.random() < 0.6:
            par['matrix'] = np.array(g.choice([0.5, 2.0, -3.0], 2), float)
            kw['topixel'] = po.DiagonalOperator(par['matrix'])
        if kind == 'scenegrid':
            if g.random() < 0.5:
                kw['to1d'] = po.To1dOperator(shape[::-1], order='f')
                par['to1d'] = True
            t = ps.SceneGrid(shape, origin=par['origin'], startswith1=st, **kw)
        else:
            if g.random() < 0.3:
                kw['ndim'] = par['ndim'] = 1
            t = ps.Scene(shape, **kw)
    n = shape[0] if par.get('ndim') else shape[0] * shape[1]
    return t, Model(np.arange(n), {}, kind=kind, seed=int(g.integers(2**30)), **par)


def build(g, ns, kind):
    if kind in ('equatorial', 'horizontal', 'spherical', 'sampling'):
        return sampling(g, ns, kind)
    if kind in ('grid', 'squares', 'layout'):
        return layout(g, ns, kind)
    return scene(g, ns, kind)


# ---------------------------------------------------------------- oracles
def derived(m):
    """The derived attributes by their definitions: name -> (kind of comparison, value)."""
    out = {}
    if m.kind in ('equatorial', 'horizontal', 'spherical', 'sampling'):
        out['time'] = 'v', m.full('time').astype(float) if 'time' in m.attrs else m.index * m.period
        if m.kind == 'sampling':
            return out
        lon, lat = (m.full(k).astype(float) for k in m.names[:2])
        if 'spherical' in m.over:
            lon, lat = m.over['spherical'].T
        out['spherical'] = 'v', np.array([lon, lat]).T
        if m.kind == 'spherical':
            return out
        v = cart(lon, lat)
        out['cartesian'] = 'v', m.over.get('cartesian', v)
        if m.kind == 'horizontal':
            time = m.over.get('time', out['time'][1])
            th = np.radians((gmst(m.jd + np.asarray(time, float) / 86400) + m.lon) % 360)
            ph = np.radians(m.lat)
            x = np.cos(ph) * v[:, 2] - np.sin(ph) * v[:, 0]
            z = np.cos(ph) * v[:, 0] + np.sin(ph) * v[:, 2]
            # from the meridian to the equinox
            v = np.stack([np.cos(th) * x - np.sin(th) * v[:, 1], np.sin(th) * x + np.cos(th) * v[:, 1], z], axis=-1)
            out['equatorial'] = 'd', v
        out['galactic'] = 'd', v @ c11.G.T
    elif m.kind in ('grid', 'squares', 'layout'):
        if 'vertex' in m.attrs or 'corner' in m.attrs:
            v = m.attrs['vertex'] if 'vertex' in m.attrs else (
                m.attrs['corner'][:, None, :] + np.array([[0, 0], [1, 0], [1, 2.0]]))
            v = m.over.get('vertex', v)
            out['vertex'] = 'v', v
            if 'center' not in m.attrs:
                out['center'] = 'v', m.over.get('center', v.mean(axis=-2))
        if 'corner' in m.attrs:
            out['double'] = 'v', m.index * 2
        if m.kind != 'layout':
            out['row'] = 'v', m.index // m.shape[1] + m.st
            out['column'] = 'v', m.index % m.shape[1] + m.st
    return out


def gmst(jd):
    d = jd - 2451545.0
    return 280.46061837 + 360.98564736629 * d + 0.000387933 * (d / 36525) ** 2


def verify(t, m, what, rng):
    """The attributes of a table, in any order."""
    check(np.array_equal(t.index, m.index), 'index', f'{what}: index {t.index}, not {m.index}')
    check(len(t) == len(m), 'index', f'{what}: length {len(t)}')
    exp = {k: ('v', v) for k, v in m.attrs.items()}
    exp.update(derived(m))
    names = sorted(exp)
    rng.shuffle(names)
    for k in names:
        how, v = exp[k]
        a = getattr(t, k)
        w = f'{what}: {k}'
        if how == 'd':
            # angles of the order of a microarcsecond
            directions(a, v, k, w, 1e-8 if m.kind == 'equatorial' else 3e-7)
        else:
            close(a, v, k, w)
        if m.kind in ('grid', 'squares') and k in ('center', 'vertex', 'radius') and m.unit and (k != 'radius' or a.unit):
            check(getattr(a, 'unit', None) == m.unit, 'unit', f'{w}: unit {getattr(a, "unit", None)!r}')
    if m.kind in ('equatorial', 'horizontal', 'spherical', 'sampling'):
        check(t.period == m.period, 'period', f'{what}: period of {t.period}, not {m.period}')
        check(t.date_obs.shape == (1,) and abs(t.date_obs.jd[0] - m.jd) < 1e-9, 'date', f'{what}: date {t.date_obs}, not {m.jd}')
        if m.kind in ('equatorial', 'horizontal'):
            check(t.degrees is True and tuple(t.names) == m.names, 'names', f'{what}: {t.names}')
            s = np.array([[10.0, 20], [350, -80]])
            close(t.spherical2cartesian(s), cart(*s.T), 'transform', f'{what}: transform')
            directions(t.cartesian2spherical(cart(*s.T)), cart(*s.T), 'transform', f'{what}: inverse transform')
    elif m.kind in ('grid', 'squares', 'layout'):
        if m.kind != 'layout':
            close(t.spacing, m.grid[0], 'spacing', f'{what}: spacing of the layout')
            close(t.origin, m.grid[1], 'origin', f'{what}: origin of the layout')
            check((t.unit or '') == m.unit, 'unit', f'{what}: the unit of the layout is {t.unit!r}, not {m.unit!r}')
            for k, a in (('spacing', t.spacing), ('origin', t.origin)):
                check((getattr(a, 'unit', '') or '') == m.unit, 'unit', f'{what}: {k} in {getattr(a, "unit", "")!r}')
            v = t.xreflection, t.yreflection, t.angle, t.startswith1
            check(v == m.grid[2:], 'grid', f'{what}: reflections, angle and start {v}, not {m.grid[2:]}')
        if 'vertex' in exp:
            check(t.nvertices == exp['vertex'][1].shape[1], 'nvertices', f'{what}: {t.nvertices} vertices')
    else:
        verify_scene(t, m, what)


def verify_scene(t, m, what):
    from pyoperators import MPI

    check(t.dtype == m.dtype, 'dtype', f'{what}: dtype {t.dtype}, not {m.dtype}')
    for k, v in (('ones', 1), ('zeros', 0), ('empty', None)):
        a = getattr(t, k)()
        check(a.shape == m.shape and a.dtype == m.dtype, k, f'{what}: {k} gives {a.dtype}{a.shape}')
        check(v is None or np.all(a == v), k, f'{what}: {k} gives {a}')
    if 'nside' in m.__dict__:
        check(t.nside == m.nside, 'keyword', f'{what}: nside {t.nside}')
    if t.comm.size == 1:
        x = np.arange(m.shape[0] * m.shape[1], dtype=float)
        op = t.get_distribution_operator(MPI.COMM_SELF)
        close(op(x), x, 'distribution', f'{what}: distribution operator')
        close(op.T(x), x, 'distribution', f'{what}: distribution operator')
    else:
        try:
            t.get_distribution_operator(MPI.COMM_WORLD)
        except ValueError:
            pass
        else:
            raise Violation('refusal', 'a distributed scene is distributed again')
    g = np.random.Generator(np.random.PCG64(m.seed))
    if m.matrix is not None:
        x = g.uniform(-5, 5, 2)
        close(t.topixel(x), x * m.matrix, 'topixel', f'{what}: to pixels')
        close(t.toworld(x), x / m.matrix, 'toworld', f'{what}: to world')
    if m.kind == 'scene':
        return
    check(t.origin == m.origin.lower(), 'origin', f'{what}: origin {t.origin}')
    check(t.startswith1 is bool(m.st), 'startswith1', f'{what}: startswith1 {t.startswith1}')
    close(t.row(), m.index // m.shape[1] + m.st, 'row', f'{what}: rows')
    close(t.column(), m.index % m.shape[1] + m.st, 'column', f'{what}: columns')
    if m.header is not None:
        check(t.header is m.header, 'header', f'{what}: header')
        pix = g.uniform(-2, 6, (4, 2))
        world = c11.tan_world(pix, m.header, 0)
        close(t.topixel(world), pix, 'topixel', f'{what}: to pixels', 1e-7)
        directions(t.toworld(pix), cart(*world.T), 'toworld', f'{what}: to world')
    if m.header is not None or 'to1d' in m.__dict__:
        xy = np.stack([m.index % m.shape[1], m.index // m.shape[1]], axis=-1)
        if len(xy):
            close(t.to1d(xy), m.index, 'to1d', f'{what}: 1-d indices')
            close(t.toNd(m.index), xy, 'toNd', f'{what}: coordinates from the 1-d indices')
    else:
        check(t.to1d is None and t.toNd is None, 'to1d', f'{what}: to1d and toNd')


# -------------------------------------------------------------- operations
def selection(n, seed):
    k = seed % 6
    a = seed // 6
    if k == 0:
        return slice(a % (n + 1), None), np.arange(n)[a % (n + 1):]
    if k == 1:
        return slice(None, None, -1), np.arange(n)[::-1]
    if k == 2:
        mask = (np.arange(n) * 13 + a) % 3 > 0
        return mask, np.where(mask)[0]
    if k == 3 and n:
        i = [(a * 7 + 5 * j) % n for j in range(1 + a % 3)]
        return i, np.array(i)
    if k == 4 and n:
        return a % n - n, np.array([a % n])
    return Ellipsis, np.arange(n)


def settable(m):
    return {'sampling': ['masked', 'time'], 'grid': ['center'], 'squares': ['vertex'],
            'layout': [k for k in m.attrs]}.get(m.kind, list(m.names) + ['masked', 'time'] if hasattr(m, 'names') else [])


def value_for(m, k, g, n):
    if k in ('masked',):
        return g.integers(0, 2, n) == 1
    if k == 'time':
        return np.cumsum(g.integers(1, 900, n) / 4.0)
    if k in ('center', 'vertex', 'corner'):
        s = m.attrs[k].shape[1:]
        return g.uniform(-5, 5, (n,) + s)
    return g.uniform(-85, 85, n)


def step(t, m, op, seed, rng, info):
    """One operation of one process. Returns the table and its model."""
    import pysimulators as ps
    from astropy.time import Time

    g = np.random.Generator(np.random.PCG64(seed))
    n = len(m)
    names = settable(m)
    point = m.kind in ('equatorial', 'horizontal', 'spherical', 'sampling')
    if op == 'select':
        sel, pos = selection(n, seed)
        old = t
        t2 = t[sel]
        check(type(t2) is type(t), 'type', f'{type(t2)}')
        verify(old, m, f'after [{sel}] was taken', rng)
        return t2, m.select(pos)
    if op == 'set' and names:
        k = names[seed % len(names)]
        v = value_for(m, k, g, n)
        m = m.copy()
        if point and k not in ('time',) and seed // 8 % 3 == 0 and k in m.attrs:
            v = True if k == 'masked' else 7.25
            if m.attrs[k].dtype.kind in 'iu':
                v = 7
            setattr(t, k, v)
            m.attrs[k] = np.full(m.attrs[k].shape, v, m.attrs[k].dtype)
        else:
            if m.kind in ('grid', 'squares') and m.unit:
                v = ps.Quantity(v, m.unit)
            setattr(t, k, v)
            m.attrs[k] = np.array(v)
        return t, m
    if op == 'inplace' and names and n:
        k = names[seed % len(names)]
        if k in m.attrs and m.attrs[k].ndim and len(m.attrs[k]) == n:
            i = seed % n
            v = value_for(m, k, g, 1)[0]
            getattr(t, k)[i] = v
            m = m.copy()
            m.attrs[k][i] = v
        return t, m
    if op == 'override':
        k = {'equatorial': ['cartesian', 'spherical'], 'horizontal': ['cartesian', 'spherical'], 'spherical': ['spherical'],
             'layout': ['center'] if 'center' not in m.attrs else []}.get(m.kind, [])
        if k:
            k = k[seed % len(k)]
            v = g.uniform(-80, 80, (n, 3 if k == 'cartesian' else 2))
            setattr(t, k, v)
            m = m.copy()
            m.over[k] = v.copy()
        return t, m
    if op == 'period' and point:
        m = m.copy()
        t.period = m.period = float(1 + seed % 40) / 8
        return t, m
    if op == 'date' and point:
        m = m.copy()
        date = f'200{seed % 10}-0{1 + seed % 9}-01 00:00:00'
        t.date_obs = Time([date], scale='utc')
        m.jd = Time(date, scale='utc').jd
        if m.kind == 'horizontal' and seed % 2:
            t.latitude = m.lat = -20.5
            t.longitude = m.lon = 77.25
        return t, m
    if op == 'copy':
        k = seed % 3
        if t.comm.size == 1 and k < 2 and m.kind not in ('fits', 'scenegrid', 'scene') and (k == 0 or m.kind not in ('layout', 'squares')):
            old, mold = t, m.copy()
            t = copy.deepcopy(t) if k == 0 else pickle.loads(pickle.dumps(t))
            for k_ in [k_ for k_ in names if k_ in m.attrs and m.attrs[k_].ndim and n]:
                # the copy has its own data
                if np.asarray(getattr(t, k_)).dtype.kind == 'f':
                    getattr(t, k_)[...] += 1
                    m = m.copy()
                    m.attrs[k_] = m.attrs[k_] + np.ones((), m.attrs[k_].dtype)
            verify(old, mold, 'after its copy was altered', rng)
        else:
            t = copy.copy(t)
        return t, m
    if op == 'split':
        parts = t.split(1 + seed % 3)
        from pyoperators.utils import split

        sl = list(split(n, 1 + seed % 3))
        for p, s in zip(parts, sl):
            verify(p, m.select(np.arange(n)[s]), f'part {s}', rng)
        return t, m
    if op == 'all' and m.kind != 'scene':
        exp = {k: ('v', v) for k, v in m.attrs.items()}
        exp.update(derived(m))
        shape = m.shape if hasattr(m, 'shape') else (m.total,)
        # which of the elements taken twice comes last is not specified
        if not all(t.comm.allgather(len(set(m.index.tolist())) == len(m.index))):
            return t, m
        for k, (how, v) in sorted(exp.items()):
            if how == 'd' or v.ndim == 0 or k in ('radius',):
                continue
            a = np.asarray(getattr(t.all, k))
            check(a.shape == tuple(shape) + v.shape[1:], 'all', f'all.{k} has the shape {a.shape}')
            a = a.reshape((int(np.prod(shape)),) + v.shape[1:])
            close(a[m.index], v, 'all', f'all.{k}')
        return t, m
    return t, m


def run(c, ns):
    info = Info()
    import random

    from pyoperators import MPI
    from pyoperators.utils import split

    kind = c['kind']
    if kind == 'velocity':
        return velocity(c, ns, info)
    ns.mem.config(c['mem'], c['seed'], -1, 0)

    def body(rank):
        g = np.random.Generator(np.random.PCG64(c['seed']))
        rng = random.Random(c['seed'])
        comm = MPI.COMM_WORLD
        if kind == 'refuse':
            return refused(g, ns)
        if kind == 'imager':
            return imager(g, ns, comm)
        t, m = build(g, ns, kind)
        m.total = len(m)
        verify(t, m, 'at first', rng)
        scattered = False
        for i, (op, seed) in enumerate(c['ops']):
            if op == 'scatter':
                if not scattered:
                    t2 = t.scatter(comm)
                    verify(t, m, 'after it was scattered', rng)
                    m = m.select(np.arange(len(m))[split(len(m), comm.size, comm.rank)])
                    t = t2
                    scattered = True
            elif op == 'gather':
                if scattered:
                    every = comm.allgather((m.index, m.attrs, m.over))
                    # what was assigned is in any case that of a process
                    kinds = comm.allgather(signature(t, m))
                    if all(k == kinds[0] for k in kinds):
                        t = t.gather()
                        m2 = m.copy()
                        m2.index = np.concatenate([e[0] for e in every])
                        n_ = len(m)
                        for name, d in ((1, m2.attrs), (2, m2.over)):
                            for k in d:
                                if d[k].ndim and len(d[k]) == n_:
                                    d[k] = np.concatenate([e[name][k] for e in every])
                        m = m2
                        scattered = False
            elif op == 'center':
                if kind in ('equatorial', 'horizontal'):
                    center(t, m, comm if scattered else MPI.COMM_SELF)
            else:
                # a process may do something else than the others
                s = seed + (rank * 977 if scattered and op == 'select' else 0)
                if scattered and op in ('period', 'date', 'set', 'override', 'inplace'):
                    s = seed
                t, m = step(t, m, op, s, rng, info)
            verify(t, m, f'after {op} ({i})', rng)
            check(t.comm.size == (comm.size if scattered else 1), 'comm', f'communicator of {t.comm.size}')
        return [np.asarray(t.index).tolist()] + [np.asarray(derived(m)[k][1]).tolist() for k in sorted(derived(m))]

    def signature(t, m):
        return {k: (np.ndim(v), np.asarray(v).dtype.str) for d in (m.attrs, m.over) for k, v in d.items()}, [
            str(np.asarray(getattr(t, k)).dtype) for k in m.attrs]

    w = mpicheck.world(c, ns, body, info)
    res = mpicheck.succeeded(w)
    ns.mem.off()
    info.nontrivial = c['n'] > 1 or bool(c['ops'])
    info.log(repr(res))
    info.key(kind, c['seed'] % 64, tuple(op for op, _ in c['ops']))
    info.faults['poisoned_memory'] += 1
    info.probes['kind_' + kind] += 1
    for op, _ in c['ops']:
        info.probes['op_' + op] += 1
    return info


def center(t, m, comm):
    exp = derived(m)
    masked = m.full('masked').astype(bool)
    v = np.asarray(exp['cartesian'][1])[~masked]
    parts = comm.allgather((len(v), v.sum(axis=0)))
    n = sum(p[0] for p in parts)
    total = sum(p[1] for p in parts)
    if n == 0:
        try:
            z = t.get_center()
        except ValueError:
            return
        raise Violation('center', f'the center of masked pointings is {z}')
    z = t.get_center()
    if np.linalg.norm(total) < 1e-3 * n:
        return
    u = total / np.linalg.norm(total)
    directions(np.asarray(z), u, 'center', 'mean pointing', 1e-8)


def velocity(c, ns, info):
    """The velocities of the pointings can be asked."""
    import pysimulators as ps

    g = np.random.Generator(np.random.PCG64(c['seed']))
    n = int(g.integers(2, 9))
    s = ps.SamplingEquatorial(g.uniform(0, 90, n), g.uniform(-45, 45, n), period=0.5)
    try:
        v = s.velocity
    except Exception as e:
        raise Violation('velocity-raises', f'the velocity of {n} pointings: {type(e).__name__}: {e}')
    check(len(v) in (n - 1, n), 'velocity', f'{v}')
    return info


def imager(g, ns, comm):
    import pyoperators as po
    import pysimulators as ps

    t, m = layout(g, ns, 'grid')
    d = np.array(g.choice([0.5, 2.0, -3.0], 2), float)
    a = float(g.uniform(0, 360))
    if g.random() < 0.5:
        op, a = po.DiagonalOperator(d), 0.0
    else:
        op, d = po.Rotation2dOperator(a, degrees=True), 1.0
    R = np.array([[np.cos(np.radians(a)), -np.sin(np.radians(a))], [np.sin(np.radians(a)), np.cos(np.radians(a))]])
    x = g.uniform(-3, 3, 2)
    y = R @ (x * d)
    if g.random() < 0.5:
        im = ps.Imager('camera', t, object2image=op)
        fwd, bwd = im.object2image, im.image2object
    elif g.random() < 0.5:
        im = ps.Imager('camera', t, image2object=op)
        fwd, bwd = im.image2object, im.object2image
    else:
        im = ps.Imager('camera', t, op)
        fwd, bwd = im.image2object, im.object2image
    check(im.name == 'camera' and len(im) == len(m), 'imager', f'{im.name}, {len(im)}')
    for i in (im, im.scatter(comm), im[: 1 + len(m) // 2]):
        f, b = (i.object2image, i.image2object) if fwd is im.object2image else (i.image2object, i.object2image)
        close(f(x), y, 'imager', 'transform')
        close(b(y), x, 'imager', 'inverse transform')
    try:
        ps.Imager('camera', t)
    except ValueError:
        pass
    else:
        raise Violation('refusal', 'an imager without transform is not refused')
    return [len(im)]


def refused(g, ns):
    import pysimulators as ps

    a2, a3 = np.arange(2.0), np.arange(3.0)
    E, H, S, G = ps.SamplingEquatorial, ps.SamplingHorizontal, ps.SceneGrid, ps.LayoutGrid
    cases = [
        ('date_obs', TypeError, lambda: ps.Sampling(3, date_obs=2000)),
        ('arguments', ValueError, lambda: E(a2, a2, a2, a2)),
        ('one array', ValueError, lambda: E(a2)),
        ('ra only', ValueError, lambda: E(ra=a2)),
        ('dec only', ValueError, lambda: E(dec=a2)),
        ('shapes', ValueError, lambda: E(a2, a3)),
        ('length', ValueError, lambda: E(3, ra=a2, dec=a2)),
        ('dimensions', ValueError, lambda: E(np.ones((2, 2)), np.ones((2, 2)))),
        ('times', ValueError, lambda: E(a2, a2, time=a3)),
        ('mask', ValueError, lambda: E(a2, a2, masked=a3 > 0)),
        ('names', ValueError, lambda: ps.SamplingSpherical(a2, a2, names=('a', 'b'))),
        ('latitude', ValueError, lambda: H(a2, a2, longitude=2)),
        ('longitude', ValueError, lambda: H(a2, a2, latitude=2)),
        ('frame', NotImplementedError, lambda: ps.SamplingSpherical(a2, a2).cartesian),
        ('origin type', TypeError, lambda: S((2, 3), origin=3)),
        ('origin', ValueError, lambda: S((2, 3), origin='left')),
        ('1-d', ValueError, lambda: S(3)),
        ('3-d', ValueError, lambda: S((2, 3, 4))),
        ('removed', NotImplementedError, lambda: S((2, 3))[1:].get_integration_operator(np.ones((1, 4, 2)))),
        ('index type', TypeError, lambda: S((2, 3)).get_integration_operator(np.ones((1, 4, 2)), dtype_index='i2')),
        ('float type', TypeError, lambda: S((2, 3)).get_integration_operator(np.ones((1, 4, 2)), dtype='f2')),
        ('grid shape', TypeError, lambda: G(3, 1.0)),
        ('grid dimensions', ValueError, lambda: G((2, 3, 4), 1.0)),
        ('grid dimensions', ValueError, lambda: G((2, 3, 4), 1.0, origin=(0, 0, 0))),
        ('grid dimensions', ValueError, lambda: G((3,), 1.0, origin=(0,))),
        ('grid origin', ValueError, lambda: G((2, 3), 1.0, origin=(0, 0, 0))),
        ('layout', ValueError, lambda: ps.Layout((2, 3))),
        ('ordering', ValueError, lambda: ps.Layout((2, 3), center=np.ones((2, 3, 2)), ordering=[[1, 2]])),
        ('attribute', ValueError, lambda: ps.Layout((2, 3), center=np.ones((3, 2, 2)))),
        ('assigned', ValueError, lambda: setattr(E(a2, a2), 'ra', a3)),
        ('index assigned', AttributeError, lambda: setattr(E(a2, a2), 'index', [0, 1])),
        ('comm assigned', AttributeError, lambda: setattr(E(a2, a2), 'comm', None)),
        ('ndim', ValueError, lambda: ps.Scene((2, 3), ndim=3)),
        ('ndim', ValueError, lambda: ps.Scene((2, 3), ndim=0)),
    ]
    for i in g.permutation(len(cases))[:8]:
        what, exc, f = cases[i]
        try:
            f()
        except exc:
            continue
        raise Violation('refusal', f'{what}: not refused')
    return []
