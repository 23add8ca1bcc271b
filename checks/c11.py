"""C11: convolution, coordinate and spectral operators, however they are evaluated."""

import sys

import numpy as np

from sim import ompcheck
from sim.core import Info

PROPERTY = 'C11'
RULE = (
    'A case is 2-8 threads and two operators among the truncated exponential convolution, roll, equatorial, galactic and '
    'horizontal coordinates, WCS, boresight, distortion, power law, black body and partitioned operators, with generated parameters, '
    'and inputs, applied (directly, transposed, inverted, composed with a diagonal or block operator) into a new array, a '
    'given array, contiguous or not, and in place, on one thread over two contents of the uninitialised memory, then under '
    'seeded schedules of the threads. Non-trivial: the operators were evaluated in two different ways at least. Distinct: '
    'by the interleavings taken, the operators and the ways.'
)
REAL = ['pysimulators.operators (ConvolutionTruncatedExponentialOperator, RollOperator, PowerLawOperator, '
        'BlackBodyOperator, coordinate operators), wcsutils (WCS, Distortion and Boresight operators)',
        'src/flib/operators.f90.j2 and module_operators.f90.j2 (trexp)', 'pyoperators', 'astropy', 'numpy', 'scipy']
STUB = ['the OpenMP runtime (SimOMP)', 'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (2500, 40), 'thorough': (150000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

OPS = ['trexp', 'trexp', 'trexp', 'trexp', 'roll', 'cart_galactic', 'cart_horizontal', 'sph_galactic', 'sph_horizontal',
       'wcs', 'boresight', 'distortion', 'powerlaw', 'blackbody', 'partition', 'partition', 'refuse']
WAYS = ['new', 'out', 'outview', 'outfortran', 'in', 'inview', 'infortran', 'rowview', 'list']


def generate(rng, tier):
    return {
        'T': rng.choice([2, 3, 4, 8]), 'K': 2 if tier == 'quick' else 4, 'ops': rng.sample(OPS, 2),
        'ways': rng.sample(WAYS, 3), 'dseed': rng.getrandbits(31), 'sseed': rng.getrandbits(31),
        'nd': rng.choice([1, 2, 3, 5, 9]), 'n': rng.choice([0, 1, 2, 3, 5, 8, 20]), 'ndim': rng.choice([1, 2, 2, 3]),
        'dt': rng.choice(['f8', 'f8', 'f4', 'i4']), 'compose': rng.random() < 0.5,
    }


def trexp(x, tau):
    y = x.astype(np.longdouble).reshape((int(np.prod(x.shape[:-1])), x.shape[-1]))
    out = y.copy()
    for r, t in zip(out, np.broadcast_to(tau, len(y))):
        if t == 0:
            continue
        w = np.exp(-1 / np.longdouble(t))
        for i in range(1, len(r)):
            r[i] = w * r[i - 1] + (1 - w) * r[i]
    return out.reshape(x.shape)


def trexp_t(x, tau):
    y = x.astype(np.longdouble).reshape((int(np.prod(x.shape[:-1])), x.shape[-1]))
    out = y.copy()
    for r, t in zip(out, np.broadcast_to(tau, len(y))):
        if t == 0 or len(r) == 0:
            continue
        w = np.exp(-1 / np.longdouble(t))
        a = np.longdouble(0)
        for i in range(len(r) - 1, 0, -1):
            a = w * a + r[i]
            r[i] = (1 - w) * a
        r[0] = w * a + r[0]
    return out.reshape(x.shape)


def cart(x, conv, degrees):
    names = conv.split(',')
    v = {k: (np.radians(x[..., i]) if degrees else x[..., i]) for i, k in enumerate(names)}
    el = np.pi / 2 - v['zenith'] if 'zenith' in v else v['elevation']
    az = v['azimuth']
    return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], axis=-1)


# from the definition of the galactic poles and centre (ESA 1997)
G = np.array([[-0.0548755604, -0.8734370902, -0.4838350155], [0.4941094279, -0.4448296300, 0.7469822445],
              [-0.8676661490, -0.1980763734, 0.4559837762]])


def horizontal(v, jd, lat, lon):
    """Towards the north, the east and the zenith, from the hour angle."""
    d = jd - 2451545.0
    gmst = 280.46061837 + 360.98564736629 * d + 0.000387933 * (d / 36525) ** 2
    th = np.radians((gmst + lon) % 360)
    ph = np.radians(lat)
    # in the frame of the meridian: x to the meridian, y to the east
    x = np.cos(th) * v[..., 0] + np.sin(th) * v[..., 1]
    y = -np.sin(th) * v[..., 0] + np.cos(th) * v[..., 1]
    return np.stack([np.cos(ph) * v[..., 2] - np.sin(ph) * x, y, np.cos(ph) * x + np.sin(ph) * v[..., 2]], axis=-1)


def tan_world(pix, h, origin):
    d = pix - [h['CRPIX1'], h['CRPIX2']] + (1 - origin)
    cd = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
    xi, eta = np.moveaxis(np.radians(d @ cd.T), -1, 0)
    a0, d0 = np.radians([h['CRVAL1'], h['CRVAL2']])
    u = np.cos(d0) - eta * np.sin(d0)
    return np.stack([np.degrees(a0 + np.arctan2(xi, u)), np.degrees(np.arctan2(np.sin(d0) + eta * np.cos(d0), np.hypot(xi, u)))],
                    axis=-1)


def rejected(e):
    return isinstance(e, ValueError) and ('contiguous' in str(e) or 'output array is not acceptable' in str(e)
                                          or 'negative dimensions' in str(e) or 'data type' in str(e))


def run(c, ns):
    info = Info()
    import pyoperators as po
    import pysimulators as ps
    from pysimulators import operators as pso
    from pysimulators import wcsutils

    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    sched = ompcheck.Sched(c, ns, info)
    nd, n, ndim = c['nd'], c['n'], c['ndim']
    dt = np.dtype(c['dt'])
    ways = set()

    def evaluate(name, op, x, check, outshape, loose=False):
        """Apply op to x in the ways of the case; check(result) -> what is wrong"""
        x0 = x.copy()
        odt = po.core.Operator._find_common_type([op.dtype, x.dtype]) if op.dtype is not None else x.dtype
        for way in c['ways']:
            if way in ('out', 'outview', 'outfortran') or way[:2] == 'in':
                if way[:2] == 'in' and (outshape != x.shape or odt != x.dtype):
                    continue
            if way == 'list' and (ndim > 2 or x.size == 0 or x.dtype.kind != 'f' or x.itemsize != 8):
                continue
            if way in ('rowview', 'inview', 'outview') and x.ndim == 0:
                continue

            def fn():
                a = x0.copy()
                try:
                    if way == 'new':
                        r = np.asarray(op(a))
                    elif way == 'list':
                        r = np.asarray(op(a.tolist()))
                    elif way == 'rowview':
                        a = np.full(x.shape[:-1] + (2 * x.shape[-1] + 3,), 77, x.dtype)[..., 1:x.shape[-1] + 1]
                        a[...] = x0
                        r = np.asarray(op(a))
                    elif way[:3] == 'out':
                        if way == 'out':
                            out = np.full(outshape, 99, odt)
                        elif way == 'outview':
                            out = np.full(outshape[:-1] + (2 * outshape[-1] + 1,), 99, odt)[..., :outshape[-1]]
                        else:
                            out = np.full(outshape, 99, odt, order='F')
                        op(a, out)
                        r = out
                    else:
                        if way == 'inview':
                            a = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 99, x.dtype)[..., 1:x.shape[-1] + 1]
                        elif way == 'infortran':
                            a = np.full(x.shape, 99, x.dtype, order='F')
                        a[...] = x0
                        op(a, a)
                        return a
                except ValueError as e:
                    if rejected(e) and way not in ('new', 'out', 'in', 'list'):
                        return None
                    raise
                assert np.array_equal(a, x0), 'the input is altered'
                return r

            def oracle(r):
                if r is None:
                    info.probes['rejected_layout'] += 1
                    return None
                if r.shape != outshape:
                    return f'{way}: shape {r.shape} instead of {outshape}'
                d = check(r)
                return d and f'{way}: {d}'

            sched(name, fn, oracle, stol=(1e-5, 1e-6) if loose else None)
            ways.add(way)
            info.key(name, way)

    def exact(e, rtol, atol):
        return lambda r: ompcheck.same(r, np.asarray(e, float), (rtol, atol))

    def shape(last):
        return {1: (last,), 2: (nd, last), 3: (nd, 2, last)}[ndim]

    def vectors(e, conv, degrees):
        def f(r):
            v = cart(np.asarray(r), conv, degrees)
            return ompcheck.same(v, e, (1e-9, 1e-6))
        return f

    for name in c['ops']:
        if name == 'trexp':
            shp = (n,) if ndim == 1 else (nd, n)
            x = rng.integers(-9, 10, size=shp).astype(dt)
            k = 1 if ndim == 1 or rng.random() < 0.4 else nd
            tau = rng.choice([0.0, 0.3, 1.0, 2.5, 40.0], size=k)
            if not np.any(tau):
                tau[0] = 2.5
            tt = np.asarray(tau, 'f4') if dt == 'f4' else tau
            op = ps.ConvolutionTruncatedExponentialOperator(tt[0] if k == 1 and rng.random() < 0.5 else tt)
            tol = (1e-5, 1e-4) if dt == 'f4' else (1e-12, 1e-11)
            o1, o2 = (lambda v: trexp(v, tt)), (lambda v: trexp_t(v, tt))
            if c['compose']:
                d = rng.integers(1, 4, size=shp).astype('f4' if dt == 'f4' else 'f8')
                D = po.DiagonalOperator(d, broadcast='disabled') if d.size else po.IdentityOperator(shapein=shp)
                which = int(rng.integers(4))
                if which == 0:
                    op, e = op.T * D * op, o2(d * o1(x))
                elif which == 1:
                    op, e = D * op, d * o1(x)
                elif which == 2:
                    op, e = (op * D).T, d * o2(x)
                else:
                    op, e = op + 2 * op.T, o1(x) + 2 * o2(x)
                evaluate('trexp_composed', op, x, exact(e, tol[0], tol[1] * 3), shp)
            else:
                if rng.random() < 0.5:
                    evaluate('trexp', op, x, exact(o1(x), *tol), shp)
                else:
                    evaluate('trexp_transpose', op.T, x, exact(o2(x), *tol), shp)
        elif name == 'roll':
            shp = shape(n)
            x = rng.integers(-9, 10, size=shp).astype(dt)
            axes = [int(a) for a in rng.permutation(len(shp))[:int(rng.integers(1, len(shp) + 1))]]
            axes = [a - len(shp) if rng.random() < 0.5 else a for a in axes]
            k = [int(rng.integers(-7, 8)) for _ in axes]
            op = pso.RollOperator(k[0] if len(k) == 1 and rng.random() < 0.5 else k, axis=axes)
            if axes == [-1] and rng.random() < 0.5:
                op = pso.RollOperator(k[0])
            elif rng.random() < 0.3:
                # several offsets, for the last dimensions
                axes = list(range(-len(k), 0))
                op = pso.RollOperator(tuple(k) if rng.random() < 0.5 else k)
            elif rng.random() < 0.3:
                # an offset for several dimensions
                k = [k[0]] * len(axes)
                op = pso.RollOperator(k[0], axis=tuple(axes))
            s = int(rng.choice([1, -1]))
            e = x
            for a, b in zip(axes, k):
                if e.shape[a]:
                    e = np.take(e, (np.arange(e.shape[a]) - s * b) % e.shape[a], axis=a)
            if s == -1:
                op = op.T if rng.random() < 0.5 else op.I
            evaluate('roll', op, x, exact(e, 0, 0), shp)
        elif name in ('cart_galactic', 'cart_horizontal', 'sph_galactic', 'sph_horizontal'):
            hor, sph = name.endswith('horizontal'), name.startswith('sph')
            degrees = bool(rng.random() < 0.5)
            convs = ['zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation']
            ci, co = convs[int(rng.integers(4))], convs[int(rng.integers(4))]
            inv = bool(rng.random() < 0.5)
            shp = shape(2 if sph else 3)
            if hor:
                # one time for each vector, or a single one
                jd = 2451545.0 + rng.integers(-4000, 9000) + rng.random(1 if rng.random() < 0.4 else shp[:-1])
                lat, lon = float(rng.uniform(-89, 89)), float(rng.uniform(-180, 180))
                from astropy.time import Time

                if jd.size == 1 and jd.ndim:
                    jd = jd.reshape(-1)[0]
                args = ('NE', Time(jd, format='jd', scale='utc'), lat, lon)
            else:
                args = ()
            a = np.stack([rng.uniform(0, 2 * np.pi, shp[:-1]), rng.uniform(-1.5, 1.5, shp[:-1])], axis=-1)
            v = cart(a, 'azimuth,elevation', False)
            if hor and not inv:
                ev = horizontal(v, jd, lat, lon)
            elif hor:
                basis = horizontal(np.eye(3), np.asarray(jd)[..., None], lat, lon)
                ev = np.einsum('...ij,...j->...i', basis, v)
            else:
                ev = v @ (G.T if not inv else G)
            if sph:
                x = np.stack([{'azimuth': a[..., 0], 'elevation': a[..., 1], 'zenith': np.pi / 2 - a[..., 1]}[s]
                              for s in ci.split(',')], axis=-1)
                x = np.degrees(x) if degrees else x
                K = {(False, False): pso.SphericalEquatorial2GalacticOperator,
                     (False, True): pso.SphericalGalactic2EquatorialOperator,
                     (True, False): pso.SphericalEquatorial2HorizontalOperator,
                     (True, True): pso.SphericalHorizontal2EquatorialOperator}[hor, inv]
                op = K(*args, conventionin=ci, conventionout=co, degrees=degrees)
                evaluate(name, op, x, vectors(ev, co, degrees), shp, loose=True)
            else:
                K = {(False, False): pso.CartesianEquatorial2GalacticOperator,
                     (False, True): pso.CartesianGalactic2EquatorialOperator,
                     (True, False): pso.CartesianEquatorial2HorizontalOperator,
                     (True, True): pso.CartesianHorizontal2EquatorialOperator}[hor, inv]
                op = K(*args)
                if rng.random() < 0.3 and not hor:
                    op = {False: pso.CartesianGalactic2EquatorialOperator, True: pso.CartesianEquatorial2GalacticOperator}[inv]()
                    op = op.T if rng.random() < 0.5 else op.I
                evaluate(name, op, v, exact(ev, 1e-9, 2e-6), shp, loose=True)
        elif name == 'wcs':
            cdelt = float(rng.uniform(0.05, 1))
            h = wcsutils.create_fitsheader(
                (8, 9), cdelt=[-cdelt, cdelt], crval=[float(rng.uniform(0, 360)), float(rng.uniform(-80, 80))],
                crpix=[float(rng.uniform(-3, 8)), float(rng.uniform(-3, 8))], pa=float(rng.uniform(0, 90)))
            origin = int(rng.integers(2))
            pix = rng.uniform(-2, 10, size=shape(2))
            world = tan_world(pix, h, origin)
            world[..., 0] %= 360
            inv = bool(rng.random() < 0.5)
            if inv:
                op = wcsutils.WCSToPixelOperator(h, origin)
                op = wcsutils.WCSToWorldOperator(h, origin).I if rng.random() < 0.3 else op
                evaluate('wcs_topixel', op, world, exact(pix, 1e-8, 1e-7), world.shape)
            else:
                op = wcsutils.WCSToWorldOperator(h, origin)
                op = wcsutils.WCSToPixelOperator(h, origin).I if rng.random() < 0.3 else op
                evaluate('wcs_toworld', op, pix, vectors(cart(world, 'azimuth,elevation', True), 'azimuth,elevation', True),
                         world.shape)
        elif name == 'boresight':
            p = np.zeros(nd, [('ra', float), ('dec', float), ('pa', float)]).view(np.recarray)
            p.ra, p.dec, p.pa = rng.uniform(0, 360, nd), rng.uniform(-70, 70, nd), rng.uniform(0, 360, nd)
            op = wcsutils.RotationBoresightEquatorialOperator(p)
            x = rng.uniform(-3600, 3600, size=shape(2))
            e = np.empty((nd,) + x.shape)
            for i in range(nd):
                t = np.radians(p.pa[i])
                e[i, ..., 1] = p.dec[i] + (x[..., 1] * np.cos(t) - x[..., 0] * np.sin(t)) / 3600
                e[i, ..., 0] = p.ra[i] + (x[..., 0] * np.cos(t) + x[..., 1] * np.sin(t)) / 3600 / np.cos(np.radians(e[i, ..., 1]))
            evaluate(name, op, x, exact(e, 1e-10, 1e-9), e.shape)
        elif name == 'distortion':
            # an affine distortion, which the interpolation reproduces
            pts = np.vstack([[[-9, -9], [-9, 9], [9, -9], [9, 9]], rng.uniform(-8, 8, (12, 2))])
            A, b = np.array([[2.0, 0.5], [-0.25, 1.5]]), np.array([3.0, -1.0])
            op = wcsutils.DistortionOperator(pts, pts @ A.T + b)
            x = rng.uniform(-6, 6, size=shape(2))
            e = x @ A.T + b
            e[np.abs(x).max(axis=-1) > 9] = np.nan
            if rng.random() < 0.4:
                op, x, e = op.I, e, x
            evaluate(name, op, x, exact(e, 1e-5, 1e-5), x.shape)
        elif name == 'partition':
            partition(pso, po, rng, shape, max(n, 1), evaluate, exact)
        elif name == 'refuse':
            refuse(ps, pso, rng, sched, n)
        else:
            shp = shape(max(n, 1))
            x = rng.integers(-9, 10, size=shp).astype(dt)
            scalar = bool(rng.random() < 0.3)
            if name == 'powerlaw':
                alpha = float(rng.integers(-2, 4)) if scalar else rng.integers(-2, 4, size=shp).astype(float)
                xx, x0 = float(rng.choice([0.5, 2, 3])), float(rng.choice([1, 2, 4]))
                sc = float(rng.choice([1, 1, 2, -5]))
                op = pso.PowerLawOperator(alpha, xx, x0, sc) if sc != 1 else pso.PowerLawOperator(alpha, xx, x0)
                f = sc * (np.longdouble(xx) / x0) ** np.asarray(alpha, np.longdouble)
            else:
                T = float(rng.uniform(2, 50)) if scalar else rng.uniform(2, 50, size=shp)
                nu, nu0 = (float(v) * 1e11 for v in rng.uniform(1, 9, size=2))
                beta = float(rng.choice([0, 1.5]))
                if rng.random() < 0.3:
                    beta = rng.choice([0, 1, 1.5], size=shp)
                cl, hp, kb = np.longdouble(299792458), np.longdouble(6.62607015e-34), np.longdouble(1.380649e-23)
                kw = {'frequency': nu, 'frequency0': nu0}
                if rng.random() < 0.4:
                    kw = {'wavelength': float(cl / nu), 'frequency0': nu0}
                op = pso.BlackBodyOperator(T, beta=beta, **kw)
                T_ = np.asarray(T, np.longdouble)
                f = (np.longdouble(nu) / nu0) ** (3 + beta) * np.expm1(hp * nu0 / (kb * T_)) / np.expm1(hp * nu / (kb * T_))
            e = f * x
            if c['compose']:
                which = int(rng.integers(3))
                if which == 0:
                    # one after the other
                    for s in rng.choice([2.0, 3.0, -0.5], size=1 + int(rng.integers(2))):
                        op, e = float(s) * op if rng.random() < 0.7 else op * float(s), s * e
                elif which == 1:
                    op, e = op * op.T, f * e
                else:
                    # several blocks along an axis
                    axis = int(rng.integers(len(shp)))
                    parts = np.array_split(np.arange(shp[axis]), min(shp[axis], 2))
                    hs = [po.HomothetyOperator(float(i + 2), shapein=shp[:axis] + (len(p),) + shp[axis + 1:])
                          for i, p in enumerate(parts)]
                    w = np.concatenate([np.full(len(p), i + 2.0) for i, p in enumerate(parts)])
                    B = po.BlockDiagonalOperator(hs, axisin=axis)
                    e = e * w.reshape([-1 if i == axis else 1 for i in range(len(shp))])
                    op = op * B if rng.random() < 0.5 else B * op
            evaluate(name, op, x, exact(e, 1e-9, 1e-12), shp)
    info.nontrivial = len(ways) > 1
    return info


def partition(pso, po, rng, shape, n, evaluate, exact):
    """Operators of a class decorated by block_diagonal."""
    new = bool(rng.random() < 0.5)
    shp = shape(n)
    if new:
        axis = int(rng.integers(len(shp) + 1))
        k = int(rng.integers(2, 5))
        shp = shp[:axis] + (k,) + shp[axis:]
        parts = (1,) * k
    else:
        axis = int(rng.integers(len(shp)))
        cuts = sorted(int(i) for i in rng.integers(0, shp[axis] + 1, size=int(rng.integers(0, 3))))
        parts = tuple(b - a for a, b in zip([0] + cuts, cuts + [shp[axis]]))
        parts = tuple(p for p in parts if p)
        k = len(parts)
    sign = axis - len(shp) if rng.random() < 0.4 else axis

    @pso.block_diagonal('value', 'key', **{'new_axisin' if new else 'axisin': sign})
    @po.flags.linear
    @po.flags.square
    class Scale(po.Operator):
        def __init__(self, value, key=1, other=1, **keywords):
            self.value, self.key, self.other = value, key, other
            po.Operator.__init__(self, dtype=float, **keywords)

        def direct(self, input, output):
            np.multiply(input, self.value * self.key * self.other, output)

    class Child(Scale):
        pass

    value = rng.integers(1, 9, size=k).astype(float) if rng.random() < 0.8 else np.float64(rng.integers(1, 9))
    key = rng.integers(1, 9, size=k).astype(float) if rng.random() < 0.4 else np.float64(rng.integers(1, 9))
    other = float(rng.integers(1, 4))
    kw = {}
    if rng.random() < 0.5:
        kw['other'] = other
    else:
        other = 1
    seq = lambda v: v if v.ndim == 0 else [v, v.tolist(), tuple(v.tolist())][int(rng.integers(3))]  # noqa: E731
    args = [seq(value)]
    how = int(rng.integers(3))
    if how == 0:
        args.append(seq(key))
    elif how == 1:
        kw['key'] = seq(key)
    else:
        key = np.float64(1)
    if rng.random() < 0.3:
        kw['value'] = args.pop(0)
        if args:
            kw['key'] = args.pop()
    if not new or rng.random() < 0.4 or (value.ndim == 0 and key.ndim == 0):
        kw['partitionin'] = parts if len(parts) > 1 or rng.random() < 0.5 else parts[0]
    elif rng.random() < 0.3:
        kw['partitionin'] = None
    w = np.asarray(value * key * other)
    w = np.broadcast_to(w, (k,))
    w = np.repeat(w, parts).reshape([-1 if i == axis else 1 for i in range(len(shp))])
    if rng.random() < 0.5:
        kw[['shapein', 'shapeout'][int(rng.integers(2))]] = shp
    op = [Scale, Child][int(rng.integers(2))](*args, **kw)
    x = rng.integers(-9, 10, size=shp).astype(float)
    evaluate('partition', op, x, exact(w * x, 0, 0), shp)


def refuse(ps, pso, rng, sched, n):
    """Arguments which have no meaning are refused."""
    import pyoperators as po

    bad2 = [1.0, 2.0]
    bb = dict(frequency=1e11, frequency0=2e11)
    R = pso.RollOperator

    def scale(**k):
        @pso.block_diagonal('value', 'key', **k)
        class Scale(po.Operator):
            def __init__(self, value, key=1, **keywords):
                po.Operator.__init__(self, **keywords)
        return Scale

    cases = [
        lambda: ps.PowerLawOperator(1.0, bad2, 1), lambda: ps.PowerLawOperator(1.0, 1, bad2),
        lambda: ps.PowerLawOperator(1.0, 1, 2, bad2), lambda: ps.PowerLawOperator(bad2, [3.0], 2),
        lambda: ps.BlackBodyOperator(20.0, frequency=1e11), lambda: ps.BlackBodyOperator(20.0, frequency0=1e11),
        lambda: ps.BlackBodyOperator(20.0, wavelength=1e-3, **bb), lambda: ps.BlackBodyOperator(20.0, wavelength0=1e-3, **bb),
        lambda: ps.BlackBodyOperator(20.0, frequency=[1e11, 2e11], frequency0=1e11),
        lambda: ps.BlackBodyOperator(20.0, frequency=1e11, frequency0=[1e11, 2e11]),
        lambda: ps.BlackBodyOperator(20.0, wavelength=1e-3, wavelength0=[1e-3, 2e-3]),
        lambda: ps.ConvolutionTruncatedExponentialOperator(ps.Quantity(2.0, 's')),
        lambda: ps.ConvolutionTruncatedExponentialOperator([1.0, 2.0, 3.0])(np.ones((2, n + 1))),
        lambda: R([1, 2], axis=0), lambda: R([1, 2], axis=(0, 1, 2)),
        lambda: pso.block_diagonal('value'), lambda: pso.block_diagonal('value', axisin=0, other=1),
        lambda: scale(axisin=0)([1, 2], [1, 2, 3]), lambda: scale(new_axisin=0)([1, 2], key=[1, 2, 3]),
        lambda: scale(axisin=0)([1, 2], partitionin=(1, 2, 3)), lambda: scale(new_axisin=0)([1, 2], partitionin=(1, 1, 1)),
        lambda: scale(axisin=0)([1, 2, 3], partitionin=(1, 2)), lambda: scale(new_axisin=0)([1, 2, 3], partitionin=(1, 1)),
    ]
    i = int(rng.integers(len(cases)))

    def fn():
        try:
            cases[i]()
        except (TypeError, ValueError) as e:
            return type(e).__name__
        return 'accepted'

    sched('refuse', fn, lambda r: None if r in ('TypeError', 'ValueError') else f'refusal {i}: {r}', serial_only=True)


pin = ompcheck.pin(sys.modules[__name__])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if 'plan' not in c and len(c['ops']) > 1:
        for o in c['ops']:
            yield dict(c, ops=[o])
    if 'plan' not in c and len(c['ways']) > 1:
        for w in c['ways']:
            yield dict(c, ways=[w])
    yield from ompcheck.shrink_keys(c, {
        'ndim': [1, 2], 'nd': [1, 2, 3], 'n': [0, 1, 2, 3], 'T': [2], 'dt': ['f8'], 'compose': [False],
    })
