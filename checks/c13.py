"""C13: sessions of calls on shared objects, some of which fail."""

import copy
import errno
import gc
import os
import pickle
import re
import sys
import types
import warnings

import numpy as np

from sim.core import Info, Violation

PROPERTY = 'C13'
RULE = (
    'A case is a session: two families of objects among quantities, maps and TODs with headers, units, coverages and masks, '
    'packed tables and layouts, samplings, scenes and projections, sparse matrices, operators, acquisitions, and functions; '
    'and a seeded history of calls on these shared objects over seeded contents of the uninitialised memory, in which some '
    'calls meet a failing allocation (the k-th one, or all from there), an interrupt before the k-th line executed in the '
    'package, or a failing file, and objects are replaced by their pickled, deep-copied or saved and reloaded selves. Each '
    'result is compared with that of the same call on objects just made. Non-trivial: two calls returned, or one failed. '
    'Distinct: by the calls made and the points where they failed.'
)
REAL = [
    'pysimulators (all the modules), its Fortran kernels',
    'pyoperators',
    'numpy',
    'scipy',
    'astropy',
    'the file system (scratch directory)',
]
STUB = [
    'the allocator of numpy arrays (contents of fresh memory, failures)',
    'the OpenMP runtime (one thread here)',
    'mpi4py (one process here)',
    'open and remove, which may fail',
    'pyfftw: numpy.fft instead',
]
BUDGET = {'quick': (6000, 45), 'thorough': (300000, 1500)}
ASSUMPTIONS = [
    'the pool of buffers of pyoperators is emptied after a failed call: pyoperators 1.0.0b1 leaves there the output '
    'of an operator which raised',
    'allocations made by the Fortran runtime and by Python objects do not fail',
    'interrupts are received while lines of the package are executed',
]

PARTS = [
    'quantity',
    'map',
    'tod',
    'table',
    'layout',
    'equatorial',
    'horizontal',
    'projection',
    'sparse',
    'operators',
    'acquisition',
    'functions',
    'geometry',
]


def generate(rng, tier):
    ev = []
    for _ in range(rng.randint(4, 12)):
        p = rng.randrange(2)
        what = rng.choices(
            ['call', 'alloc', 'line', 'file', 'pickle', 'deepcopy', 'fits', 'alter'], [8, 5, 3, 2, 1, 1, 1.5, 1.5]
        )[0]
        ev.append([p, what, rng.getrandbits(16), round(rng.random(), 4), rng.getrandbits(20)])
    # the same call again after it failed, more often than not
    out = []
    for e in ev:
        out.append(e)
        if e[1] in ('alloc', 'line', 'file') and rng.random() < 0.7:
            out.append([e[0], 'call' if e[1] != 'file' else 'again', e[2], 0, e[4]])
    return {'parts': rng.sample(PARTS, 2), 'dseed': rng.getrandbits(31), 'sseed': rng.getrandbits(31), 'events': out}


def shrink(case):
    ev = case['events']
    for n in (len(ev) // 2, len(ev) // 4, 2, 1):
        if n < 1:
            continue
        for i in range(0, len(ev), n):
            if len(ev) > n:
                yield dict(case, events=ev[:i] + ev[i + n :])


# -------------------------------------------------------------- comparison
def canon(x, ref=False, depth=0):
    """What can be observed of an object, as nested lists."""
    import astropy.io.fits as pyfits
    from pysimulators import FitsArray, Map, PackedTable, Quantity, Tod

    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, str, bytes, int)):
        return ['v', re.sub(' at 0x[0-9a-f]+', '', repr(x))]
    if isinstance(x, (float, complex)):
        return ['a', 'scalar', np.asarray(x)]
    if isinstance(x, np.ndarray):
        out = [
            'a',
            type(x).__name__,
            np.array(x.view(np.ndarray), copy=True) if x.dtype.kind != 'O' else repr(x.tolist()),
        ]
        if isinstance(x, Quantity):
            out.append(sorted((str(k), float(v)) for k, v in x._unit.items()))
            out.append(sorted(([str(k), canon_du(v)] for k, v in x._derived_units.items()), key=repr))
        if isinstance(x, Map):
            out += [canon(x.coverage, ref, depth + 1), canon(x.error, ref, depth + 1), str(x.origin)]
        if isinstance(x, Tod):
            out += [canon(x.mask, ref, depth + 1)]
        return out
    if isinstance(x, np.generic):
        return ['a', 'generic', np.asarray(x)]
    if isinstance(x, pyfits.Header):
        return ['h', x.tostring(sep='\n')]
    if isinstance(x, PackedTable):
        out = ['t', type(x).__name__, repr((x.shape, x.ndim, x.comm.size)), canon(x.index)]
        for k in sorted(set(x._special_attributes) - set(x._reserved_attributes)):
            try:
                v = object.__getattribute__(x, k)
            except AttributeError:
                v = 'no attribute'
            out.append([k, canon(v, ref, depth + 1)])
        return out
    if isinstance(x, (tuple, list)):
        return ['l', type(x).__name__] + [canon(i, ref, depth + 1) for i in x]
    if isinstance(x, dict):
        return ['d'] + [[str(k), canon(x[k], ref, depth + 1)] for k in sorted(x, key=str)]
    if isinstance(x, (types.FunctionType, types.MethodType)):
        return ['f', x.__qualname__]
    return ['o', type(x).__name__]


def canon_du(v):
    from pysimulators import Quantity

    if not isinstance(v, Quantity):
        return getattr(v, '__name__', 'callable')
    return [np.array(v.view(np.ndarray), copy=True).tolist(), sorted((str(a), float(b)) for a, b in v._unit.items())]


def differ(a, b, tol, path=''):
    """None, or where two canonical forms differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
            return f'{path}: {a!r} instead of {b!r}'
        if a.shape != b.shape or a.dtype.newbyteorder('=') != b.dtype.newbyteorder('='):
            return f'{path}: {a.dtype}{a.shape} instead of {b.dtype}{b.shape}'
        if a.dtype.names is not None:
            for n in a.dtype.names:
                d = differ(np.asarray(a[n]), np.asarray(b[n]), tol, f'{path}.{n}')
                if d:
                    return d
            return None
        if a.dtype.kind in 'fc':
            ok = (a == b) | ((a != a) & (b != b))
            if tol and not ok.all():
                eps = 1e-9 if a.dtype.itemsize >= 8 else 2e-5
                f = np.abs(b[np.isfinite(b)])
                scale = float(f.max()) if f.size else 0
                with np.errstate(all='ignore'):
                    ok |= np.abs(a - b) <= eps * (np.abs(b) + scale)
            ok = bool(ok.all())
        else:
            ok = a.tobytes() == b.tobytes() or np.array_equal(a, b)
        return None if ok else f'{path}: {a.tolist()} instead of {b.tolist()}'[:700]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {a!r} instead of {b!r}'[:700]
        for i, (x, y) in enumerate(zip(a, b)):
            name = a[0] if i and isinstance(a[0], str) and len(a[0]) > 1 else i
            d = differ(x, y, tol, f'{path}/{name}')
            if d:
                return d
        return None
    if a == b:
        return None
    if isinstance(a, str) and isinstance(b, str) and max(len(a), len(b)) > 200:
        x, y = a.splitlines(), b.splitlines()
        i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
        a, b = '\n'.join(x[i : i + 2]), '\n'.join(y[i : i + 2])
    return f'{path}: {a!r} instead of {b!r}'[:700]


def arrays_of(x, seen=None, depth=0, path=''):
    """The arrays, units and headers which an object holds."""
    import astropy.io.fits as pyfits
    from pyoperators import Operator
    from pysimulators import Acquisition, Instrument, PackedTable, Quantity
    from pysimulators.sparse import SparseBase

    if seen is None:
        seen = {}
    if depth > 6 or id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        yield path, x
        if isinstance(x, Quantity):
            for k in ('_header', 'coverage', 'error', '_mask'):
                yield from arrays_of(getattr(x, k, None), seen, depth + 1, f'{path}.{k}')
            for k, v in x._derived_units.items():
                yield from arrays_of(v, seen, depth + 1, f'{path}.derived_units[{k}]')
    elif isinstance(x, pyfits.Header):
        yield path, x
    elif isinstance(x, (tuple, list)):
        for i, v in enumerate(x):
            yield from arrays_of(v, seen, depth + 1, f'{path}[{i}]')
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from arrays_of(v, seen, depth + 1, f'{path}[{k!r}]')
    elif isinstance(x, (PackedTable, Instrument, Acquisition, SparseBase)):
        for k, v in list(x.__dict__.items()):
            if k not in ('comm', '_operator', 'topixel', 'toworld'):
                yield from arrays_of(v, seen, depth + 1, f'{path}.{k}')
    elif isinstance(x, Operator):
        for k, v in list(x.__dict__.items()):
            if k in ('operands', 'matrix', 'data', 'tau') or isinstance(v, np.ndarray):
                yield from arrays_of(v, seen, depth + 1, f'{path}.{k}')


def snapshot(o):
    out = {}
    for name, x in o.items():
        for path, a in arrays_of(x, path=name):
            out[path] = (a, canon(a))
        out[name + ' '] = (x, canon(x))
    return out


def changed(snap, o):
    now = {}
    for name, x in o.items():
        for path, a in arrays_of(x, path=name):
            now[path] = canon(a)
        now[name + ' '] = canon(x)
    for path, (a, c) in snap.items():
        if path not in now:
            return f'{path} is gone'
        d = differ(now[path], c, False, path)
        if d:
            return d
    return None


def scribble(x, shallow=False, header=False):
    """Overwrite what an object holds."""
    import astropy.io.fits as pyfits

    for path, a in list(arrays_of(x)):
        if shallow and ('derived_units' in path or '_header' in path and not header):
            continue
        if isinstance(a, pyfits.Header):
            a['SCRIBBLE'] = 1
        elif a.size:
            if not a.flags.writeable:
                continue
            v = a.view(np.ndarray)
            if v.dtype.kind in 'fc':
                v[...] = -77
            elif v.dtype.kind == 'b':
                v[...] = ~v
            elif v.dtype.kind in 'iu':
                v[...] = 77
            elif v.dtype.names:
                for n in v.dtype.names:
                    v[n] = 77


# ---------------------------------------------------------------- families
# each returns (objects, calls); a call is (function of the objects and of a generator, options):
#   F: the result is new memory (H: with its header);  S: goes through files


def alt(g, *f):
    return f[int(g.integers(len(f)))]()


def quantity(g, ns):
    from pysimulators import Quantity

    shape = (int(g.integers(1, 4)), int(g.integers(1, 5)))
    w = Quantity(g.integers(1, 9, shape[0]).astype(float), 'W')
    v = Quantity(g.integers(1, 9, shape[1]).astype(float), 'uJy')
    o = {
        'q': Quantity(g.integers(1, 9, shape).astype(float), 'km / s'),
        'r': Quantity(g.integers(1, 9, shape).astype(float), 'm / ms', dtype='f4'),
        'f': Quantity(g.integers(1, 9, shape).astype(float), 'mJy / arcmin^2'),
        'd': Quantity(
            g.integers(1, 9, shape).astype(float), 'det', derived_units={'det[rightward]': w, 'row[leftward]': v}
        ),
        'e': Quantity(
            g.integers(1, 9, shape).astype(float), 'det / row', derived_units={'det[rightward]': w, 'row[leftward]': v}
        ),
        'j': Quantity(g.integers(1, 9, shape).astype(float), 'mJy', derived_units={'Jy': Quantity(2.0, 'kg')}),
        'x': Quantity(g.integers(1, 9, shape).astype(float)),
        's': Quantity(3.0, 'hour', derived_units={'hour': Quantity(3600.0, 's')}),
        'w': w,
        'v': v,
    }

    def inplace(o, g):
        q = o['r' if g.random() < 0.5 else 'd'].copy()
        old, unit = q.copy(), q._unit
        try:
            q.inunit('um / s' if 'm' in q._unit else 'mW2' if g.random() < 0.1 else 'W')
        except MemoryError:
            if q._unit != unit or not np.array_equal(np.asarray(q), np.asarray(old)):
                raise Violation('half-converted', f'a failed conversion of {old!r} in place leaves {q!r}')
            raise
        except Exception as e:
            if type(e).__name__ == 'UnitError':
                return 'incompatible'
            raise
        return q

    def pick(o, g):
        return o[sorted(o)[int(g.integers(len(o)))]]

    import pysimulators

    table = pysimulators.units if hasattr(pysimulators, 'units') else None
    from pysimulators import quantities

    keys = ['mJy', 'arcmin', 'km', 'N', 'bar', 'Ohm', 'MJy']
    return o, {
        'SI': (lambda o, g: pick(o, g).SI, ''),
        'SI_unit_table': (lambda o, g: quantities.units[keys[int(g.integers(len(keys)))]].SI, ''),
        'SI_derived': (lambda o, g: o['d'].derived_units['det[rightward]'].SI, ''),
        'tounit': (
            lambda o, g: alt(
                g,
                lambda: o['q'].tounit('pc / s'),
                lambda: o['d'].tounit('W'),
                lambda: o['f'].tounit('MJy/sr'),
                lambda: o['s'].tounit('ms'),
                lambda: o['r'].tounit('km/s'),
            ),
            'F',
        ),
        'add': (
            lambda o, g: alt(
                g,
                lambda: o['q'] + o['r'],
                lambda: o['r'] - o['q'],
                lambda: o['q'] + o['x'],
                lambda: o['d'] - o['d'],
                lambda: o['s'] + o['s'],
                lambda: np.maximum(o['r'], o['q']),
            ),
            'F',
        ),
        'mul': (
            lambda o, g: alt(
                g,
                lambda: o['q'] * o['d'],
                lambda: o['d'] * o['v'],
                lambda: o['e'] / o['d'],
                lambda: o['q'] ** 2,
                lambda: np.sqrt(o['d']),
                lambda: 1 / o['f'],
                lambda: o['s'] * o['f'],
            ),
            'F',
        ),
        'reduce': (
            lambda o, g: alt(
                g,
                lambda: o['q'].sum(axis=0),
                lambda: np.mean(o['d'], axis=1),
                lambda: np.std(o['r']),
                lambda: o['q'].max(),
                lambda: np.var(o['f']),
                lambda: np.cumsum(o['e'], axis=0),
                lambda: o['d'].min(axis=0),
            ),
            'F',
        ),
        'join': (
            lambda o, g: alt(
                g,
                lambda: np.concatenate([o['q'], o['r']]),
                lambda: np.where(o['x'] > 4, o['q'], o['r']),
                lambda: np.stack([o['q'], o['r']]),
                lambda: np.append(o['r'], o['q']),
                lambda: np.hstack([o['r'], o['q']]),
            ),
            'F',
        ),
        'index': (
            lambda o, g: alt(
                g,
                lambda: o['d'][:1],
                lambda: o['q'][0],
                lambda: o['e'][:, ::2],
                lambda: o['q'][..., 0],
                lambda: o['q'].T,
                lambda: o['d'].reshape(-1),
            ),
            '',
        ),
        'index_SI': (lambda o, g: alt(g, lambda: o['d'][:1], lambda: o['e'][::2], lambda: o['d'][:, :2]).SI, ''),
        'inunit': (inplace, 'F'),
        'str': (lambda o, g: [str(pick(o, g)), repr(pick(o, g))], ''),
        'compare': (
            lambda o, g: [np.asarray(o['q'] > o['r']), np.asarray(o['r'] == o['q']), np.argsort(o['q'], axis=None)],
            'F',
        ),
    }


def wcs_header(g, shape, n=0):
    from pysimulators import create_fitsheader

    return create_fitsheader(
        shape[::-1], cdelt=[-0.5, 0.5], crval=[10.0 + n, 20.0], crpix=[1.5, 2.5], pa=float(g.integers(0, 40))
    )


def fits_io(ns, x, name):
    path = os.path.join(ns.tmp, name)
    x.save(path)
    y = type(x)(path)
    os.remove(path)
    return y


def strip(x):
    """Without what a file does not tell."""
    return [
        type(x).__name__,
        np.asarray(x, float).copy(),
        sorted(x._unit.items()),
        canon(getattr(x, 'coverage', None)),
        canon(getattr(x, 'error', None)),
        canon(getattr(x, 'mask', None)),
        str(getattr(x, 'origin', None)),
        sorted((str(k), canon_du(v)) for k, v in x._derived_units.items()),
    ]


def cards(h):
    return [
        f'{k}={h[k]}'
        for k in (
            'NAXIS',
            'NAXIS1',
            'NAXIS2',
            'CRPIX1',
            'CRPIX2',
            'CRVAL1',
            'CRVAL2',
            'CD1_1',
            'CD1_2',
            'CD2_1',
            'CD2_2',
            'CTYPE1',
            'CTYPE2',
        )
        if k in h
    ]


def mapping(g, ns):
    from pysimulators import FitsArray, Map, Quantity

    shape = (int(g.integers(2, 5)), int(g.integers(2, 6)))
    h = wcs_header(g, shape)
    cov = g.integers(0, 5, shape).astype(float)
    err = g.integers(1, 5, shape).astype(float)
    w = Quantity(g.integers(1, 9, shape[0]).astype(float), 'W')
    o = {
        'm': Map(
            g.integers(1, 9, shape).astype(float), header=h, coverage=cov, error=err, unit='mJy / pixel', origin='upper'
        ),
        'n': Map(g.integers(1, 9, shape).astype(float), unit='Jy / arcmin^2', coverage=cov.copy()),
        'p': Map(g.integers(1, 9, shape).astype(float), header=wcs_header(g, shape, 5), unit='Jy / pixel_reference'),
        'a': FitsArray(g.integers(1, 9, shape).astype('f4'), unit='det', derived_units={'det[rightward]': w}),
        'b': FitsArray(g.integers(1, 9, shape).astype(float)),
    }

    def pick(o, g):
        return o[sorted(o)[int(g.integers(len(o)))]]

    def save(o, g):
        return strip(fits_io(ns, pick(o, g), 'x.fits'))

    def resave(o, g):
        """An array restored from a file, of which the attributes are changed, then saved again."""
        y = fits_io(ns, pick(o, g), 'x.fits')
        y.unit = ['', 'K', 'm / s'][int(g.integers(3))]
        if isinstance(y, Map):
            y.origin = ['upper', 'lower'][int(g.integers(2))]
            if g.random() < 0.5:
                y.coverage = None
            if g.random() < 0.5:
                y.error = None
        if g.random() < 0.3:
            y.derived_units = {}
        z = fits_io(ns, y, 'z.fits')
        d = differ(strip(z), strip(y), True, 'restored')
        if d:
            raise Violation('saved-again', f'restored from a file, changed, saved again and restored: {d}')
        return strip(z)

    def over(o, g):
        """A file is replaced by another one: what is read is the one or the other, or the failure is reported."""
        path = os.path.join(ns.tmp, 'y.fits')
        o['m'].save(path)
        o['n'].save(path)
        return strip(Map(path))

    return o, {
        'save': (save, 'S'),
        'resave': (resave, 'S'),
        'replace': (over, 'S'),
        'header': (lambda o, g: cards(pick(o, g).header), ''),
        'header_of_part': (lambda o, g: cards(alt(g, lambda: o['m'], lambda: o['p'])[:1].header), ''),
        'tounit': (
            lambda o, g: alt(
                g,
                lambda: o['m'].tounit('Jy/arcmin^2'),
                lambda: o['n'].tounit('MJy/sr'),
                lambda: o['p'].tounit('mJy/pixel_reference'),
                lambda: o['m'].tounit('uJy/pixel'),
                lambda: o['p'].tounit('Jy/arcsec^2'),
                lambda: o['a'].tounit('mW') if False else o['a'].tounit('W'),
            ),
            '',
        ),
        'SI': (lambda o, g: pick(o, g).SI, ''),
        'arith': (
            lambda o, g: alt(
                g,
                lambda: o['m'] + 1,
                lambda: o['m'] * o['n'],
                lambda: o['p'] / 2,
                lambda: np.sqrt(o['m']),
                lambda: o['a'] * o['b'],
                lambda: o['m'] ** 2,
            ),
            '',
        ),
        'reduce': (lambda o, g: [np.asarray(np.mean(pick(o, g), axis=0)), np.asarray(np.sum(pick(o, g)))], 'F'),
        'astype': (lambda o, g: pick(o, g).astype('f4'), ''),
        'index': (
            lambda o, g: alt(
                g,
                lambda: pick(o, g)[0],
                lambda: pick(o, g)[:, 1],
                lambda: pick(o, g)[1:, :2],
                lambda: pick(o, g)[..., 0],
            ),
            '',
        ),
        'shape': (
            lambda o, g: alt(g, lambda: pick(o, g).ravel(), lambda: pick(o, g).reshape(-1), lambda: pick(o, g).T),
            '',
        ),
        'follow': (lambda o, g: _follow(Map, ('coverage', 'error'), g), ''),
        'new': (lambda o, g: Map(o[['m', 'n', 'p'][int(g.integers(3))]]), 'FH'),
        'new_array': (lambda o, g: FitsArray(pick(o, g)), 'FH'),
        'new_header': (lambda o, g: Map(o['n'], header=o['m'].header, error=o['m'].error), ''),
        'astype_copy': (lambda o, g: pick(o, g).astype(float).copy(), ''),
        'new_unit': (lambda o, g: Map(o['m'], unit='K', coverage=o['n'].coverage, copy=bool(g.integers(2))), ''),
        'wcs': (lambda o, g: [pick(o, g).has_wcs(), str(pick(o, g))], ''),
        'toworld': (lambda o, g: _toworld(o['m'].header, g), 'F'),
        'scene': (lambda o, g: _scene(o['p'].header, g), 'F'),
    }


def _follow(cls, names, g):
    """The coverage and error of a map, or the mask of a TOD, follow its elements, as plain arrays do."""
    shape = tuple(int(_) for _ in g.integers(1, 5, int(g.integers(1, 4))))
    n = int(np.prod(shape))
    x = g.permutation(n).reshape(shape).astype(float)
    names = [_ for _ in names if g.random() < 0.8]
    refs = {_: g.permutation(n).reshape(shape).astype(float) if _ != 'mask' else g.random(shape) < 0.5 for _ in names}
    m = cls(x.copy(), **{k: v.copy() for k, v in refs.items()})
    said = []
    for _ in range(int(g.integers(1, 4))):
        shape = x.shape
        order = 'CF'[int(g.integers(2))]
        new = shape
        if x.ndim and x.size:
            k = [_ for _ in range(1, x.size + 1) if x.size % _ == 0]
            k = k[int(g.integers(len(k)))]
            new = [(k, x.size // k), (k, -1), (-1, k), (1, x.size), (-1,)][int(g.integers(5))]
        key = [
            Ellipsis,
            slice(None, None, -1),
            slice(1, None),
            (Ellipsis, slice(None, None, 2)),
            (Ellipsis, None),
            (None,),
            (Ellipsis, slice(0, 1)),
            [0, -1],
            'mask',
        ][int(g.integers(9))]
        if isinstance(key, str):
            key = g.random(shape) < 0.6
        if x.ndim == 0 or not x.size:
            key = Ellipsis
        what, f = [
            (f'[{key}]', lambda a: a[key]),
            (f'[{key}]', lambda a: a[key]),
            (f'reshape({new}, order={order!r})', lambda a: a.reshape(new, order=order)),
            (f'reshape(*{new}, order={order!r})', lambda a: a.reshape(*new, order=order)),
            (f'np.reshape({new}, order={order!r})', lambda a: np.reshape(a, new, order=order)),
            (f'ravel({order!r})', lambda a: a.ravel(order)),
            (f'np.ravel(order={order!r})', lambda a: np.ravel(a, order=order)),
            ('copy()', lambda a: a.copy()),
            ("astype('f4')", lambda a: a.astype('f4') if a.dtype != bool else a),
        ][int(g.integers(9))]
        said.append(what)
        m = f(m)
        x = f(x)
        refs = {k: f(v) for k, v in refs.items()}
        for k, v in [('elements', x)] + list(refs.items()):
            a = m if k == 'elements' else getattr(m, k)
            if a is None or np.shape(a) != v.shape or not np.array_equal(np.asarray(a), v):
                raise Violation('follow', f'{cls.__name__}{shape}: {", ".join(said)}: {k} is {a!r}, not {v.tolist()}'[:900])
    return m


def _toworld(h, g):
    from pysimulators import WCSToPixelOperator, WCSToWorldOperator

    op = WCSToWorldOperator(h)
    x = op(g.uniform(0, 3, (3, 2)))
    return np.asarray(x), np.asarray(WCSToPixelOperator(h)(x))


def _scene(h, g):
    from pysimulators import SceneGrid

    s = SceneGrid.fromfits(h)
    return s.shape, s.ones(), np.asarray(s.topixel(np.array([[10.0, 20.0]]))), s.column(), s.row()


def timeline(g, ns):
    from pysimulators import Quantity, Tod

    shape = (int(g.integers(2, 5)), int(g.integers(2, 6)))
    v = Quantity(g.integers(1, 9, shape[0]).astype(float), 'W')
    o = {
        't': Tod(
            g.integers(1, 9, shape).astype(float),
            mask=g.random(shape) < 0.3,
            unit='V',
            derived_units={'V[rightward]': v} if g.random() < 0.5 else None,
        ),
        'u': Tod(g.integers(1, 9, shape).astype(float), unit='mm', header=wcs_header(g, shape) if g.random() < 0.7 else None),
        'v': Tod(g.integers(1, 9, shape[1]).astype(float), mask=g.random(shape[1]) < 0.3),
    }

    def pick(o, g):
        return o[sorted(o)[int(g.integers(len(o)))]]

    return o, {
        'save': (lambda o, g: strip(fits_io(ns, pick(o, g), 'x.fits')), 'S'),
        'median': (lambda o, g: alt(g, lambda: pick(o, g).median(), lambda: pick(o, g).median(axis=0)), 'FH'),
        'reduce': (
            lambda o, g: alt(
                g,
                lambda: np.mean(o['t'], axis=0),
                lambda: np.sum(o['t']),
                lambda: np.std(pick(o, g)),
                lambda: np.max(o['t'], axis=1),
                lambda: o['u'].mean(),
            ),
            'F',
        ),
        'arith': (
            lambda o, g: alt(
                g, lambda: o['t'] * 2, lambda: o['t'] + o['v'], lambda: o['v'] ** 2, lambda: o['t'] * o['u']
            ),
            '',
        ),
        'tounit': (lambda o, g: o['u'].tounit('km'), ''),
        'SI': (lambda o, g: pick(o, g).SI, ''),
        'index': (
            lambda o, g: alt(
                g, lambda: o['t'][0], lambda: o['t'][:, 1:], lambda: pick(o, g)[..., 0], lambda: o['t'][1:]
            ),
            '',
        ),
        'shape': (
            lambda o, g: alt(
                g, lambda: pick(o, g).ravel(), lambda: pick(o, g).reshape(-1), lambda: o['t'].T, lambda: o['t'].copy()
            ),
            '',
        ),
        'follow': (lambda o, g: _follow(Tod, ('mask',), g), ''),
        'new': (lambda o, g: Tod(pick(o, g)), 'FH'),
        'filled': (lambda o, g: _masked(Tod(pick(o, g)), g), 'F'),
        'alloc': (
            lambda o, g: alt(
                g, lambda: Tod.zeros((2, 3), unit='V'), lambda: Tod.ones((2, 3)), lambda: np.zeros_like(o['u']),
                lambda: np.reshape(o['t'], -1) * 1, lambda: np.ravel(o['t']) * 1,
            ),
            '',
        ),
        'new_mask': (lambda o, g: Tod(o['u'], mask=o['t'].mask), 'F'),
        'new_view': (lambda o, g: Tod(o['u'], mask=o['t'].mask, copy=None), ''),
        'header': (lambda o, g: cards(pick(o, g).header), ''),
        'astype': (lambda o, g: pick(o, g).astype('f4'), ''),
        'str': (lambda o, g: [str(pick(o, g)), repr(pick(o, g))], ''),
        'concat': (lambda o, g: np.concatenate([o['t'], o['t'] + 1], axis=int(g.integers(2))), 'F'),
    }


def _masked(t, g):
    """The mask of a copy is set."""
    kind = int(g.integers(6))
    if kind == 0:
        t.mask = None
    elif kind == 1:
        t.mask = bool(g.integers(2))
    elif kind == 2:
        t.mask = g.integers(0, 2, t.shape)
    elif kind == 3:
        t.mask = g.integers(0, 2, t.shape).astype(np.int8)
    elif kind == 4:
        t.mask = (g.random(t.shape) < 0.5).tolist()
    else:
        t.mask = g.random(t.shape) < 0.5
        t.mask = 1
    return t


def _selections(n, g):
    return [
        slice(None),
        slice(0, max(n // 2, 1)),
        slice(0, n, 2),
        0,
        [0],
        np.arange(n) % 2 == 0,
        list(range(n))[::-1],
        np.array([n - 1, 0]) if n > 1 else [0],
        Ellipsis,
    ][int(g.integers(9))]


def _table_calls():
    def data(t, g):
        return g.integers(0, 99, (len(t),) + [(), (2,)][int(g.integers(2))]).astype(float)

    def full(t, g):
        return g.integers(0, 99, t.shape[: t.ndim] + [(), (2,)][int(g.integers(2))]).astype(float)

    def pick(o, g):
        return o[sorted(o)[int(g.integers(len(o)))]]

    def attrs(t):
        return [
            np.array(getattr(t, k))
            for k in sorted(set(t._special_attributes) - set(t._reserved_attributes))
            if getattr(t, k) is not None
        ]

    def unpacked(t):
        return [np.array(getattr(t.all, k)) for k in sorted(t._special_attributes) if getattr(t, k) is not None]

    def some(o, g):
        t = pick(o, g)
        return t[_selections(len(t), g)]

    return {
        'attributes': (lambda o, g: attrs(pick(o, g)), 'F'),
        'all': (lambda o, g: unpacked(pick(o, g)), 'F'),
        'set': (lambda o, g: _set(pick(o, g), full, data, g), ''),
        'index': (lambda o, g: np.array(pick(o, g).index), 'F'),
        'pack': (lambda o, g: (lambda t: t.pack(full(t, g), copy=True))(pick(o, g)), 'F'),
        'unpack': (lambda o, g: (lambda t: t.unpack(data(t, g)))(pick(o, g)), 'F'),
        'unpack_missing': (lambda o, g: (lambda t: t.unpack(data(t, g), missing_value=-5, copy=True))(pick(o, g)), 'F'),
        'unpack_out': (
            lambda o, g: (
                lambda t: (
                    t.unpack(data(t, g)[:, None], out=np.ones(t.shape[: t.ndim] + (1,)))
                    if False
                    else _unpack_out(t, data(t, g))
                )
            )(pick(o, g)),
            'F',
        ),
        'select': (some, ''),
        'select_attributes': (lambda o, g: attrs(some(o, g)), ''),
        'select_twice': (lambda o, g: (lambda t: t[_selections(len(t), g)])(some(o, g)), ''),
        'split': (lambda o, g: pick(o, g).split(int(g.integers(1, 4))), ''),
        'copy': (lambda o, g: pick(o, g).copy(), 'F'),
        'gather': (lambda o, g: pick(o, g).gather(), ''),
        'gather_array': (lambda o, g: (lambda t: t.gather(data(t, g)))(pick(o, g)), 'F'),
        'str': (lambda o, g: str(pick(o, g)), ''),
        'len': (lambda o, g: [len(pick(o, g)), len(pick(o, g).all)], ''),
    }


def _set(t, full, data, g):
    """The attributes of a copy of a table are set: what is given is left unaltered and is not shared."""
    t = t.copy()
    k = [_ for _ in sorted(t._special_attributes) if isinstance(getattr(t, _), np.ndarray) and _ not in t._reserved_attributes]
    if not k:
        return None
    k = k[int(g.integers(len(k)))]
    x = full(t, g)
    setattr(t.all, k, x)
    x0 = x.copy()
    y = None
    if g.random() < 0.5:
        y = data(t, g)
        y0 = y.copy()
        setattr(t, k, y)
    got = np.array(getattr(t, k))
    ref = t.pack(x0, copy=True) if y is None else y0
    if got.shape != ref.shape or not np.array_equal(got, ref):
        raise Violation('set', f'{k} set as {ref.tolist()} is {got.tolist()}'[:600])
    setattr(t, k, 1000.0)
    if not np.array_equal(x, x0):
        raise Violation('set-shared', f'setting {k} alters the array it has been set with before')
    return got, np.array(getattr(t, k))


def _unpack_out(t, x):
    out = np.full(t.shape[: t.ndim] + x.shape[1:], 5.0)
    return t.unpack(x, out=out)


def _key(t):
    return t.gain * 2


def table(g, ns):
    from pysimulators import PackedTable, Quantity

    shape = (int(g.integers(2, 4)), int(g.integers(2, 5)))
    sel = g.random(shape) < 0.7
    sel[0, 0] = True
    order = g.permutation(int(np.prod(shape))).reshape(shape)
    order[g.random(shape) < 0.3] = -1
    order[0, 0] = 100

    class Table(PackedTable):
        def double(self):
            return self.gain * 2

        def plus(self, k):
            return self.gain + k

    o = {
        'a': Table(
            shape,
            selection=sel,
            gain=g.integers(1, 9, shape).astype(float),
            flag=3.0,
            pos=g.random(shape + (2,)),
            double=None,
            unit=Quantity(g.integers(1, 9, shape).astype(float), 'W'),
        ),
        'b': Table(
            shape,
            ordering=order,
            selection=sel if g.random() < 0.5 else None,
            gain=g.integers(1, 9, shape).astype(float),
            double=None,
        ),
        'c': PackedTable(shape, gain=g.integers(1, 9, shape).astype('f4'), func=_key),
        'd': PackedTable(shape, ndim=1, selection=slice(0, None, 2), gain=g.integers(1, 9, shape).astype(float)),
    }
    return o, _table_calls()


def layout(g, ns):
    from pysimulators import Layout, LayoutGrid, LayoutGridSquares

    shape = (int(g.integers(2, 4)), int(g.integers(2, 5)))
    sel = g.random(shape) < 0.7
    sel[0, 0] = True
    o = {
        'a': LayoutGrid(shape, 0.5, selection=sel, center=(1, 2), angle=float(g.integers(0, 90))),
        'b': LayoutGridSquares(shape, 0.5, filling_factor=0.8, xreflection=bool(g.integers(2)), angle=30),
        'c': Layout(shape, vertex=g.random(shape + (4, 2)), selection=sel),
        'd': Layout(shape, center=g.random(shape + (2,)), radius=g.random(shape), theta=0.5),
    }
    calls = _table_calls()
    calls['integration'] = (lambda o, g: _integrate(o, g), 'F')
    calls['instrument'] = (lambda o, g: _instrument(o, g), '')
    return o, calls


def _integrate(o, g):
    from pysimulators import SceneGrid

    s = SceneGrid((5, 6))
    P = s.get_integration_operator(np.array(o['b'].vertex) * 3 + 2.5)
    return np.array(P(np.arange(30.0).reshape(5, 6))), np.array(P.T(np.ones(P.shapeout)))


def _instrument(o, g):
    from pysimulators import Instrument

    i = Instrument(o['ab'[int(g.integers(2))]], 'name')
    x = g.random((len(i), 2))
    return [np.array(i.unpack(x)), [len(_) for _ in i.split(2)], i[_selections(len(i), g)].detector]


def _sampling_calls(kind):
    calls = dict(_table_calls())
    pick = lambda o, g: o[sorted(o)[int(g.integers(len(o)))]]  # noqa: E731
    calls['cartesian'] = (lambda o, g: np.array(pick(o, g).cartesian), 'F')
    calls['spherical'] = (lambda o, g: np.array(pick(o, g).spherical), 'F')
    calls['galactic'] = (lambda o, g: np.array(pick(o, g).galactic), 'F')
    calls['center'] = (lambda o, g: np.array(pick(o, g).get_center()), 'F')
    calls['time'] = (lambda o, g: np.array(pick(o, g).time), 'F')
    if kind == 'horizontal':
        calls['equatorial'] = (lambda o, g: np.array(pick(o, g).equatorial), 'F')
    calls['transform'] = (lambda o, g: np.array(pick(o, g).spherical2cartesian(g.uniform(-80, 80, (3, 2)))), 'F')
    for k in ('attributes', 'all', 'select_attributes'):
        calls.pop(k)
    return calls


def equatorial(g, ns):
    from pysimulators import SamplingEquatorial

    class S(SamplingEquatorial):
        DEFAULT_VELOCITY_UNIT = 'arcmin/s'

    n = int(g.integers(2, 7))
    masked = g.random(n) < 0.4
    masked[0] = False
    o = {
        'a': S(g.uniform(0, 360, n), g.uniform(-80, 80, n), g.uniform(0, 360, n), masked=masked, period=0.5),
        'b': S(g.uniform(0, 360, n), g.uniform(-80, 80, n), time=np.cumsum(g.random(n))),
        'c': S(ra=g.uniform(0, 360, n), dec=g.uniform(-80, 80, n), masked=masked),
    }
    # coordinates which are stored instead of being computed
    o['c'].cartesian = np.array(o['b'].cartesian)
    o['c'].spherical = np.array(o['b'].spherical)
    return o, _sampling_calls('equatorial')


def horizontal(g, ns):
    from pysimulators import SamplingHorizontal

    class S(SamplingHorizontal):
        DEFAULT_VELOCITY_UNIT = 'deg/s'

    n = int(g.integers(2, 5))
    masked = g.random(n) < 0.4
    masked[0] = False
    o = {
        'a': S(g.uniform(0, 360, n), g.uniform(10, 80, n), latitude=30, longitude=20, masked=masked, period=60),
        'b': S(
            azimuth=g.uniform(0, 360, n),
            elevation=g.uniform(10, 80, n),
            time=np.cumsum(g.random(n)),
            latitude=-40,
            longitude=120,
            date_obs='2012-03-04',
        ),
    }
    if g.random() < 0.5:
        o['b'].spherical = np.array(o['b'].spherical)
    return o, _sampling_calls('horizontal')


def projection(g, ns):
    import pysimulators.sparse as S
    from pyoperators import DiagonalOperator
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator, ProjectionOperator

    nd, nt, npix, nmax = int(g.integers(1, 4)), int(g.integers(1, 5)), int(g.integers(2, 8)), int(g.integers(1, 4))
    dt = ['f4', 'f8'][int(g.integers(2))]

    def make(cls, bn, names, **k):
        m = cls(((nd * nt) * bn, npix * bn), ncolmax=nmax, dtype=np.dtype(dt), dtype_index=np.dtype('i4'), **k)
        m.data.index = g.integers(-1, npix, (nd * nt, nmax))
        for n in names:
            m.data[n] = g.integers(1, 5, m.data[n].shape)
        return m

    A = make(S.FSRMatrix, 1, ['value'])
    R = make(S.FSRRotation3dMatrix, 3, ['r11', 'r22', 'r32'])
    pm = np.zeros((nd, nt, nmax), [('index', 'i4'), ('value', 'f4')])
    pm['index'] = g.integers(-1, npix, pm.shape)
    pm['value'] = g.integers(1, 5, pm.shape)
    o = {
        'A': A,
        'P': ProjectionOperator(A, shapein=(npix,), shapeout=(nd, nt)),
        'R': ProjectionOperator(R, shapein=(npix, 3), shapeout=(nd, nt, 3)),
        'x': g.integers(1, 9, npix).astype(dt),
        'y': g.integers(1, 9, (nd, nt)).astype(dt),
        'x3': g.integers(1, 9, (npix, 3)).astype(dt),
        'y3': g.integers(1, 9, (nd, nt, 3)).astype(dt),
        'pm': pm,
        'w': g.integers(1, 4, (nd, nt)).astype(float),
    }
    mask = g.random(npix) < 0.3

    def old(o, g):
        # get_mask and the rest of the tabulated projections leave place-holders in their matrix
        P = ProjectionInMemoryOperator(PointingMatrix(o['pm'].copy(), shape_input=(npix,)))
        return P

    def out(o, g):
        z = np.full((nd, nt), 5, dt)
        o['P'](o['x'], z)
        return z

    calls = {
        'P': (lambda o, g: np.array(o['P'](o['x'])), 'F'),
        'P_out': (out, 'F'),
        'PT': (lambda o, g: np.array(o['P'].T(o['y'])), 'F'),
        'R': (lambda o, g: np.array(o['R'](o['x3'])), 'F'),
        'RT': (lambda o, g: np.array(o['R'].T(o['y3'])), 'F'),
        'normal': (lambda o, g: np.array((o['P'].T * o['P'])(o['x'])), 'F'),
        'weighted': (lambda o, g: np.array((o['P'].T * DiagonalOperator(o['w']) * o['P'])(o['x'])), 'F'),
        'kernel': (lambda o, g: np.array(o['P'].canonical_basis_in_kernel()), 'F'),
        'pT1': (lambda o, g: np.array(o['P'].pT1()), 'F'),
        'pTx_pT1': (lambda o, g: [np.array(_) for _ in o['P'].pTx_pT1(o['y'])], 'F'),
        'restrict': (lambda o, g: _restricted(o['P'].restrict(~mask), g), 'F'),
        'dense': (lambda o, g: np.array(o['P'].todense()), 'F'),
        'product': (lambda o, g: [np.array(o['A'] * o['x']), np.array(o['y'].ravel() * o['A'])], 'F'),
        'copy': (lambda o, g: np.array(o['A'].copy().data['value']), 'F'),
        'old': (lambda o, g: np.array(old(o, g)(o['x'].astype(float))), 'F'),
        'old_T': (lambda o, g: np.array(old(o, g).T(o['y'].astype(float))), 'F'),
        'old_mask': (lambda o, g: np.array(old(o, g).get_mask()), 'F'),
        'old_pT1': (lambda o, g: [np.array(_) for _ in (old(o, g).get_pTx_pT1(o['y'].astype(float)))], 'F'),
        'scaled': (lambda o, g: np.array((2 * o['P'])(o['x'])), 'F'),
        'str': (lambda o, g: [str(o['A']), str(o['P'])], ''),
    }
    return o, calls


def _restricted(P, g):
    return np.array(P(np.arange(P.shapein[0], dtype=P.dtype))), np.array(P.matrix.data['index'])


def sparse(g, ns):
    import pysimulators.sparse as S

    nr, nc, n = int(g.integers(1, 6)), int(g.integers(1, 6)), int(g.integers(1, 4))
    k = int(g.integers(8))
    kw, bl, names = {}, (1, 1), ['value']
    if k < 2:
        cls = [S.FSCMatrix, S.FSRMatrix][k]
    elif k < 4:
        cls, bl = [S.FSCBlockMatrix, S.FSRBlockMatrix][k - 2], (2, 3)
        kw = {'block_shape': bl}
    elif k < 6:
        cls, bl, names = [S.FSCRotation2dMatrix, S.FSRRotation2dMatrix][k - 4], (2, 2), ['r11', 'r21']
    else:
        cls, bl, names = [S.FSCRotation3dMatrix, S.FSRRotation3dMatrix][k - 6], (3, 3), ['r11', 'r22', 'r32']
    row = 'FSR' in cls.__name__
    kw['nrowmax' if not row else 'ncolmax'] = n
    m = cls((nr * bl[0], nc * bl[1]), dtype=float, dtype_index=np.dtype('i4'), **kw)
    m.data.index = g.integers(-1, nc if row else nr, m.data.index.shape)
    for f in names:
        m.data[f] = g.integers(-3, 4, m.data[f].shape)
    x, y = g.integers(1, 9, nc * bl[1]).astype(float), g.integers(1, 9, nr * bl[0]).astype(float)
    o = {
        'm': m,
        'op': S.SparseOperator(m),
        'x': x,
        'y': y,
        'xi': x if k < 2 else x.reshape(nc, -1),
        'yi': y if k < 2 else y.reshape(nr, -1),
    }

    def altered(o, g):
        # what is done to copies does not reach the matrix
        for c in (o['m'].copy(), 2 * o['m'], o['m'] * 3):
            for f in names:
                c.data[f] = 7
            c.data.index = 0

    return o, {
        'mul': (lambda o, g: np.array(o['m'] * o['x']), 'F'),
        'rmul': (lambda o, g: np.array(o['y'] * o['m']), 'F'),
        'op': (lambda o, g: np.array(o['op'](o['xi'])), 'F'),
        'opT': (lambda o, g: np.array(o['op'].T(o['yi'])), 'F'),
        'normal': (lambda o, g: np.array((o['op'].T * o['op'])(o['xi'])), 'F'),
        'sum': (lambda o, g: np.array((o['op'] + 2 * o['op'])(o['xi'])), 'F'),
        'out': (lambda o, g: _sparse_out(o), 'F'),
        'opdense': (lambda o, g: np.array(o['op'].todense(shapein=o['xi'].shape)), 'F'),
        'copy': (lambda o, g: [np.array(o['m'].copy().data[f]) for f in ['index'] + names], 'F'),
        'scaled': (lambda o, g: [np.array((2 * o['m']) * o['x']), np.array((o['m'] * 3) * o['x'])], 'F'),
        'altered': (altered, 'F'),
        'str': (lambda o, g: [str(o['m']), repr(o['m'])], ''),
        'data': (lambda o, g: type(o['m'])(o['m'].shape, data=o['m'].data) * o['x'], 'F'),
    }


def _sparse_out(o):
    out = np.full(o['y'].shape, 3.0)
    o['m']._matvec(o['x'], out)
    return out


def operators(g, ns):
    import pysimulators as ps
    from pyoperators import DiagonalOperator
    from pysimulators import operators as pso
    from pysimulators import wcsutils

    nd, n = int(g.integers(1, 4)), int(g.integers(2, 6))
    p = np.zeros(nd, [('ra', float), ('dec', float), ('pa', float)]).view(np.recarray)
    p.ra, p.dec, p.pa = g.uniform(0, 360, nd), g.uniform(-70, 70, nd), g.uniform(0, 360, nd)
    pts = np.vstack([[[-9, -9], [-9, 9], [9, -9], [9, 9]], g.uniform(-8, 8, (5, 2))])
    from astropy.time import Time

    o = {
        'tau': g.uniform(0.5, 4, nd),
        'x': g.integers(1, 9, (nd, n)).astype(float),
        'd': g.integers(1, 4, (nd, n)).astype(float),
        'p': p,
        'c': g.uniform(-3, 3, (n, 2)),
        'v': g.uniform(-1, 1, (n, 3)),
        'time': np.linspace(0, 0.5, n) + 2455000.0,
        'z': g.integers(1, 9, 7).astype(float),
    }
    o['trexp'] = ps.ConvolutionTruncatedExponentialOperator(o['tau'] if nd > 1 else o['tau'][0])
    o['roll'] = pso.RollOperator(2, axis=-1)
    o['e2g'] = pso.SphericalEquatorial2GalacticOperator(degrees=True)
    o['h2e'] = pso.SphericalHorizontal2EquatorialOperator(
        'NE', Time(o['time'], format='jd', scale='utc'), 30, 20, degrees=True
    )
    o['bore'] = wcsutils.RotationBoresightEquatorialOperator(o['p'])
    o['dist'] = wcsutils.DistortionOperator(pts, pts * 2 + 1)
    o['power'] = ps.PowerLawOperator(1.5, 2.0, 0.5, scalar=3.0)
    o['bb'] = ps.BlackBodyOperator(20.0, wavelength=1.5e-4, wavelength0=1e-4)

    def out(op, x):
        z = np.full(x.shape, 5.0)
        op(x, z)
        return z

    def same(op, x):
        z = x.copy()
        op(z, z)
        return z

    ops = {'trexp': 'x', 'roll': 'x', 'e2g': 'c', 'h2e': 'c', 'bore': 'c', 'dist': 'c', 'power': 'z', 'bb': 'z1'}
    calls = {}
    for k, x in ops.items():
        if x == 'z1':
            calls[k] = (lambda o, g: np.array(o['bb'](np.ones(n))), 'F')
            continue
        calls[k] = (lambda o, g, k=k, x=x: np.array(o[k](o[x])), 'F')
        if k != 'bore':
            calls[k + '_out'] = (lambda o, g, k=k, x=x: out(o[k], o[x]), 'F')
        if k in ('trexp', 'roll', 'e2g', 'h2e'):
            calls[k + '_T'] = (
                lambda o, g, k=k, x=x: np.array((o[k].T if k in ('trexp', 'roll') else o[k].I)(o[x])),
                'F',
            )
            calls[k + '_in'] = (lambda o, g, k=k, x=x: same(o[k], o[x]), 'F')
    calls['trexp_composed'] = (
        lambda o, g: np.array((o['trexp'].T * DiagonalOperator(o['d']) * o['trexp'])(o['x'])),
        'F',
    )
    calls['trexp_sum'] = (lambda o, g: np.array((o['trexp'] + 2 * o['roll'])(o['x'])), 'F')
    calls['block'] = (lambda o, g: np.array(_blocks(o)(o['x'])), 'F')
    calls['new'] = (lambda o, g: np.array(pso.CartesianEquatorial2GalacticOperator()(o['v'])), 'F')
    calls['new_hor'] = (
        lambda o, g: np.array(
            pso.CartesianEquatorial2HorizontalOperator('NE', Time(o['time'], format='jd', scale='utc'), 30, 20)(o['v'])
        ),
        'F',
    )
    return o, calls


def _blocks(o):
    from pyoperators import BlockDiagonalOperator, DiagonalOperator

    k = o['x'].shape[1]
    return (
        BlockDiagonalOperator([DiagonalOperator(o['d'][:, :1]), DiagonalOperator(o['d'][:, 1:k])], axisin=1) * o['roll']
    )


def acquisition(g, ns):
    import pysimulators as ps

    nd, nt = int(g.integers(1, 4)), int(g.integers(2, 7))
    c = {'nscene': 5, 'ncol': 2, 'seed': int(g.integers(100)), 'dt': 'f8', 'it': 'i4'}
    from checks import c02

    class Inst(ns.C13Instrument):
        pass

    Inst.c = c
    sel = g.random((nd, 2)) < 0.7
    sel[0, 0] = True
    lay = ps.Layout((nd, 2), center=g.random((nd, 2, 2)), selection=sel)
    samp = ps.SamplingEquatorial(g.uniform(0, 360, nt), g.uniform(-80, 80, nt), period=0.5)
    block = None if g.random() < 0.5 else (slice(0, nt // 2), slice(nt // 2, nt))
    a = ps.Acquisition(Inst(lay), samp, ps.Scene(5), block=block)
    o = {
        'a': a,
        'lay': lay,
        'samp': samp,
        'x': g.integers(1, 9, 5).astype(float),
        'y': g.integers(1, 9, (int(sel.sum()), nt)).astype(float),
        'psd': 1.0 + g.random(nt // 2 + 1),
    }

    def seeded(f):
        def call(o, g):
            np.random.seed(int(g.integers(1000)))
            return f(o, g)

        return call

    calls = {
        'H': (lambda o, g: np.array(o['a'].get_operator()(o['x'])), 'F'),
        'HT': (lambda o, g: np.array(o['a'].get_operator().T(o['y'])), 'F'),
        'observation': (seeded(lambda o, g: np.array(o['a'].get_observation(o['x']))), 'F'),
        'noiseless': (lambda o, g: np.array(o['a'].get_observation(o['x'], noiseless=True)), 'F'),
        'observation_out': (seeded(lambda o, g: _obs_out(o)), 'F'),
        'noise': (seeded(lambda o, g: np.array(o['a'].get_noise())), 'F'),
        'invntt': (lambda o, g: np.array(o['a'].get_invntt_operator()(o['y'])), 'F'),
        'nbytes': (lambda o, g: int(o['a'].get_operator_nbytes()), ''),
        'select': (lambda o, g: _part(o, g), 'F'),
        'pack': (lambda o, g: np.array(o['a'].unpack(o['y'])), 'F'),
        'str': (lambda o, g: str(o['a']), ''),
        'white': (seeded(lambda o, g: np.array(o['a'].instrument.get_noise_any(o['samp'], sigma=2.0))), 'F'),
        'correlated': (
            seeded(lambda o, g: np.array(o['a'].instrument.get_noise_any(o['samp'], sigma=2.0, fknee=0.3, fslope=1.5))),
            'F',
        ),
        'normal': (
            lambda o, g: (
                np.array((lambda H: (H.T * o['a'].get_invntt_operator() * H)(o['x']))(o['a'].get_operator()))
                if block is None
                else None
            ),
            'F',
        ),
        'new': (lambda o, g: str(ps.Acquisition(o['a'].instrument, o['samp'], ps.Scene(5)).block), ''),
    }
    return o, calls


def _obs_out(o):
    out = np.full(o['y'].shape, 5.0)
    o['a'].get_observation(o['x'], out=out)
    return out


def _part(o, g):
    a = o['a']
    n, m = len(a.instrument), len(a.sampling)
    k = int(g.integers(3))
    if k == 0:
        b = a[: max(n // 2, 1)]
        if len(a.block) > 1:
            return np.array(b.instrument.detector.index)
        return np.array(b.get_operator()(o['x']))
    if k == 1:
        b = a[..., :]
        return np.array(b.get_operator()(o['x']))
    b = a[0, 0]
    return np.array(b.sampling.index), np.array(b.instrument.detector.index)


def functions(g, ns):
    import pysimulators as ps
    from pysimulators import datautils, wcsutils

    n = int(g.integers(2, 5))
    h1, h2 = wcs_header(g, (4, 5)), wcs_header(g, (3, 6), 1)
    o = {
        'a': g.integers(1, 9, (n, n)).astype(float),
        'lon': g.uniform(0, 40, n),
        'lat': g.uniform(-20, 20, n),
        'center': np.array([1.0, 2.0]),
        'h1': h1,
        'h2': h2,
        'sigma': np.array([1.0, 2.0]),
        'scale': ps.Quantity([1.0, 2.0], 'arcsec'),
        'mp': ps.Map(
            g.integers(1, 9, (n + 1, n)).astype(float),
            unit='K',
            header=h1,
            origin='upper',
            coverage=np.ones((n + 1, n)),
        ),
        'td': ps.Tod(g.integers(1, 9, (n, 4)).astype(float), unit='K', mask=g.random((n, 4)) < 0.3),
        'cc': g.random((2, 3, 2)),
        'sel': np.array([[1, 0, 1], [1, 1, 1]], bool),
        'gain': g.integers(1, 9, (2, 3)).astype(float),
        'order': np.array([[3, 1, -1], [2, 5, 4]]),
        'flat': np.array([1, 0]),
        'ql': ps.Quantity(g.integers(1, 5, 2).astype(float), 'mm'),
        'q1': ps.Quantity(2.0, 'um'),
        'qc': ps.Quantity(g.random((2, 3, 2)), 'mm'),
        'sel3': [slice(None), slice(0, 2)],
    }

    def build(o, g):
        t = ps.PackedTable(
            (2, 3),
            selection=alt(g, lambda: o['sel'], lambda: o['flat'], lambda: o['sel3'], lambda: None),
            ordering=o['order'] if g.random() < 0.4 else None,
            gain=o['gain'],
            q=o['qc'],
            s=3,
        )
        return np.array(t.gain), np.array(t.index), np.array(t.all.gain), t.q

    def layouts(o, g):
        kw = {'selection': o['sel']} if g.random() < 0.5 else {}
        t = alt(
            g,
            lambda: ps.Layout((2, 3), center=o['cc'], **kw),
            lambda: ps.LayoutGrid((2, 3), o['q1'], origin=o['ql'], radius=o['q1'], **kw),
            lambda: ps.LayoutGridSquares((2, 3), o['q1'], origin=o['ql'], **kw),
            lambda: ps.LayoutGrid((2, 3), o['q1'], center=o['qc'], **kw),
            lambda: ps.LayoutGrid((2, 3), 0.3, vertex=o['cc'][..., None, :] + [[0, 0], [0, 1], [1, 1]], **kw),
        )
        return np.array(t.center), np.array(getattr(t, 'vertex', 0)), np.array(t.index)

    def samplings(o, g):
        t = alt(
            g,
            lambda: ps.SamplingEquatorial(o['lon'], o['lat'], o['lat'], masked=o['lat'] > 0, period=0.1),
            lambda: ps.SamplingHorizontal(o['lon'], o['lat'], latitude=10, longitude=20, time=o['lon']),
        )
        out = [np.array(t.cartesian), np.array(t.spherical), np.array(t.time)]
        if not np.all(t.masked):
            out.append(np.array(t.get_center()))
        return out

    return o, {
        'distance': (lambda o, g: datautils.distance((3, 4), center=o['center'], scale=o['scale']), 'F'),
        'table': (build, 'F'),
        'layouts': (layouts, 'F'),
        'samplings': (samplings, 'F'),
        'profile_map': (lambda o, g: datautils.profile(o['mp'], center=o['center'] / 2), 'F'),
        'psd2': (lambda o, g: np.array(datautils.psd2(o['a'])), 'F'),
        'profile_psd2': (lambda o, g: datautils.profile_psd2(np.tile(o['a'], (2, 2))), 'F'),
        'shared': (
            lambda o, g: alt(
                g,
                lambda: ps.Map(o['mp'], unit='J', copy=False),
                lambda: ps.Map(o['mp'], origin='lower', copy=False),
                lambda: ps.Map(o['mp'], header=o['h2'], copy=False),
                lambda: ps.Map(o['mp'], error=o['mp'] * 2, copy=None),
                lambda: ps.Tod(o['td'], mask=~o['td'].mask, copy=False),
                lambda: ps.Tod(o['td'], unit='', copy=None),
                lambda: ps.Quantity(o['ql'], 'kg', copy=False),
                lambda: ps.Quantity(o['mp'], 'W', subok=True, copy=False),
                lambda: ps.FitsArray(o['mp'], derived_units={'K': o['q1']}, copy=False),
                lambda: ps.Map(o['td'], copy=False, unit='W'),
                lambda: ps.Tod(o['mp'], copy=False, unit='W'),
            ),
            '',
        ),
        'distance_nd': (lambda o, g: datautils.distance((3, 2, 2)), 'F'),
        'gaussian': (lambda o, g: datautils.gaussian((3, 4), sigma=o['sigma'], center=o['center']), 'F'),
        'gaussian1d': (lambda o, g: datautils.gaussian(5, fwhm=2), 'F'),
        'airy': (lambda o, g: datautils.airy_disk((4, 5), fwhm=2, center=o['center']), 'F'),
        'aperture': (lambda o, g: datautils.aperture_circular((4, 5), 3), 'F'),
        'profile': (lambda o, g: datautils.profile(o['a'], bin=0.7, nbins=3, histogram=True), 'F'),
        'integrated': (lambda o, g: datautils.integrated_profile(o['a'], bin=0.7, nbins=3), 'F'),
        'phasemask': (lambda o, g: datautils.phasemask_fourquadrant((4, 4)), 'F'),
        'angle': (lambda o, g: wcsutils.angle_lonlat(o['lon'], o['lat'], o['lat'], o['lon'] / 2), 'F'),
        'barycenter': (lambda o, g: list(wcsutils.barycenter_lonlat(o['lon'], o['lat'])), 'F'),
        'combine': (lambda o, g: cards(wcsutils.combine_fitsheader([o['h1'], o['h2']])), ''),
        'combine_cdelt': (lambda o, g: cards(wcsutils.combine_fitsheader([o['h1'], o['h2']], cdelt=0.5, pa=10)), ''),
        'combine_one': (lambda o, g: cards(wcsutils.combine_fitsheader(o['h1'], cdelt=0.5)), ''),
        'mean_degrees': (lambda o, g: float(wcsutils.mean_degrees(o['lon'] - 10)), ''),
        'minmax_degrees': (lambda o, g: list(wcsutils.minmax_degrees(o['lon'])), ''),
        'shape': (lambda o, g: list(wcsutils.fitsheader2shape(o['h1'])), ''),
        'headers': (lambda o, g: cards(wcsutils.create_fitsheader_for(o['a'], cdelt=2, crval=(3, 4))), ''),
        'scene': (lambda o, g: _scene(o['h1'], g), 'F'),
        'beam': (lambda o, g: np.asarray(ps.BeamGaussian(0.1)(o['lon'] / 100, o['lat'])), 'F'),
        'polygons': (lambda o, g: _polygons(g), 'F'),
        'psd': (lambda o, g: _psd(o, g), 'F'),
    }


def _polygons(g):
    from pysimulators import SceneGrid
    from pysimulators.geometry import create_square

    v = np.array([create_square(1.5, center=c) for c in g.uniform(1, 3, (3, 2))])
    P = SceneGrid((4, 5)).get_integration_operator(v)
    return np.array(P(np.ones((4, 5)))), int(P.min_ncolmax)


def _psd(o, g):
    from pysimulators import noises

    p = noises._gaussian_psd_1f(8, 2.0, 1.0, 0.5, 1.0, twosided=True)
    return p, noises._fold_psd(np.ones((2, 8))[0]) if False else p[::-1].copy(), noises._unfold_psd(p[:5])


def geometry(g, ns):
    from pysimulators import geometry as G

    o = {
        'c': g.integers(-3, 4, (2, 2)).astype(float),
        'p': g.uniform(-3, 3, (3, 4, 2)),
        'pts': g.uniform(-3, 3, (6, 2)),
        'v': np.array([[0.0, 0], [3, 0], [3, 2]]),
    }
    return o, {
        'circle': (lambda o, g: G.create_circle(2.0, center=o['c'][0], n=5), 'F'),
        'grid': (lambda o, g: G.create_grid((2, 3), 0.5, center=o['c'][0], angle=30), 'F'),
        'squares': (
            lambda o, g: G.create_grid_squares((2, 3), 0.5, filling_factor=0.5, center=o['c'][0], angle=30),
            'F',
        ),
        'rectangle': (lambda o, g: G.create_rectangle((2, 3), center=o['c'][1], angle=10), 'F'),
        'polygon': (lambda o, g: G.create_regular_polygon(5, 2.0, center=o['c'], angle=10), 'F'),
        'square': (lambda o, g: G.create_square(2.0, center=o['c'][0], angle=10), 'F'),
        'rotate': (lambda o, g: G.rotate(o['p'], 30), 'F'),
        'rotate_out': (lambda o, g: G.rotate(o['p'], 30, out=np.ones(o['p'].shape)), 'F'),
        'surface': (lambda o, g: np.asarray(G.surface_simple_polygon(o['p'])), 'F'),
        'hull': (lambda o, g: G.convex_hull(o['pts']), 'F'),
        'segment': (lambda o, g: G.segment_polygon(o['v'], 0.7), 'F'),
    }


FAMILY = {
    'quantity': quantity,
    'map': mapping,
    'tod': timeline,
    'table': table,
    'layout': layout,
    'equatorial': equatorial,
    'horizontal': horizontal,
    'projection': projection,
    'sparse': sparse,
    'operators': operators,
    'acquisition': acquisition,
    'functions': functions,
    'geometry': geometry,
}


def setup(ns):
    from pysimulators import Instrument, noises

    from . import c02, c17

    c02.setup(ns)

    class C13Instrument(ns.SimInstrument):
        get_noise_any = Instrument.get_noise

    ns.C13Instrument = C13Instrument

    # the transforms are planned by timing: their rounding is not reproducible
    noises.fft = c17.FFT()


class Lines:
    """Interrupt before the k-th line executed in the package."""

    def __init__(self, ns, k):
        self.prefix = str(ns.repo / 'src' / 'pysimulators')
        self.k, self.n = k, 0
        self.where = None

    def _local(self, frame, event, arg):
        if event == 'line':
            if self.n == self.k:
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}'
                self.n += 1
                raise KeyboardInterrupt
            self.n += 1
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.prefix) else None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def run(c, ns):
    from pyoperators import Operator

    info = Info()
    c = dict(c)
    live, calls, refs = [], [], {}

    def build(i):
        g = np.random.Generator(np.random.PCG64([c['dseed'], i]))
        return FAMILY[c['parts'][i]](g, ns)

    def state():
        return [np.geterr(), len(warnings.filters), os.getcwd(), np.get_printoptions()['precision']]

    for i in range(2):
        o, k = build(i)
        live.append(o)
        calls.append(k)
    state0 = state()
    snaps = [snapshot(o) for o in live]

    def gen(e):
        return np.random.Generator(np.random.PCG64(e[4]))

    def reference(p, name, e):
        """The result on objects just made, the number of allocations, of lines and of file events."""
        key = (p, name, e[4])
        if key not in refs:
            o, k = build(p)
            f = k[name][0]
            ns.pool._buffers = []
            ns.mem.config(1, 1, 2**40, 0)
            mark = len(ns.files.log)
            try:
                with Lines(ns, -1) as lines:
                    try:
                        r = f(o, gen(e))
                    finally:
                        sys.settrace(None)
                        n = ns.mem.stats()['counted']
                        ns.mem.off()
                refs[key] = ('ok', canon(r), n, lines.n, len(ns.files.log) - mark)
            except Violation:
                raise
            except Exception as exc:
                refs[key] = ('raises', type(exc).__name__, n, lines.n, 0)
        return refs[key]

    history = []

    def fail(cls, msg):
        raise Violation(cls, f'{msg}\nhistory: {"; ".join(history)}')

    done = failed = 0
    for ie, e in enumerate(c['events']):
        p, what, pick, frac, seed = e
        o, k = live[p], calls[p]
        family = c['parts'][p]
        names = sorted(k)
        if what in ('pickle', 'deepcopy', 'fits', 'alter'):
            which = sorted(o)[pick % len(o)]
            x = o[which]
            if what == 'fits':
                from pysimulators import FitsArray

                if not isinstance(x, FitsArray):
                    continue
                history.append(f'{family}: {which} is saved and reloaded')
                y = fits_io(ns, x, f'live{ie}.fits')
                d = differ(strip(y), strip(x), True, which)
                if d:
                    fail('saved', f'{family}: {which} saved then reloaded: {d}')
                info.faults['restart_from_fits'] += 1
            else:
                if what == 'pickle':
                    if isinstance(x, Operator):
                        continue  # those of pyoperators cannot be unpickled
                    try:
                        buf = pickle.dumps(x)
                    except Exception:
                        info.probes[f'not_picklable_{family}_{which}'] += 1
                        continue
                    y = pickle.loads(buf)
                else:
                    from pysimulators import PackedTable

                    if not isinstance(x, (np.ndarray, PackedTable)):
                        continue
                    y = x.copy() if isinstance(x, PackedTable) else copy.deepcopy(x)
                history.append(f'{family}: {what} of {which}')
                d = differ(canon(y), canon(x), False, which)
                if d:
                    fail(what, f'{family}: {what} of {which}: {d}')
                if what == 'alter':
                    scribble(y)
                    history.append(f'{family}: the copy of {which} is altered')
                    info.faults['altered_copy'] += 1
                    d = changed(snaps[p], o)
                    if d:
                        fail('copy-shared', f'{family}: altering a copy of {which} alters the original: {d}')
                    continue
                info.faults['restart_from_' + what] += 1
            if isinstance(x, (np.ndarray,)) or family in ('table', 'layout', 'equatorial', 'horizontal'):
                o[which] = y
                snaps[p] = snapshot(o)
            continue
        if what in ('file', 'again'):
            names = [n for n in names if 'S' in k[n][1]] or names
        name = names[pick % len(names)]
        f, opt = k[name]
        label = f'{family}.{name}({seed})'
        ref = reference(p, name, e)
        if what == 'again':
            what = 'call'
        if what == 'file' and 'S' not in opt:
            what = 'alloc'
        interrupt = None
        ns.mem.config(1 + (c['sseed'] + ie) % 4, c['sseed'] + ie, -1, 0)
        exc = res = None
        mode = what
        where = ''
        if what == 'alloc':
            if ref[2] == 0:
                mode = 'call'
            else:
                n = int(frac * ref[2])
                where = f'allocation {n} of {ref[2]}'
                ns.mem.config(1 + (c['sseed'] + ie) % 4, c['sseed'] + ie, n, 0, 1 if seed % 2 else 10**6)
        elif what == 'line':
            if ref[3] == 0:
                mode = 'call'
            else:
                n = int(frac * ref[3])
                where = f'line {n} of {ref[3]}'
                interrupt = Lines(ns, n)
        elif what == 'file':
            kind = ['open', 'create', 'remove', 'limit'][seed % 4]
            where = kind
            if kind == 'limit':
                ns.files.limit(int(frac * 9000))
            else:
                ns.files.fail(kind, int(frac * 3), [errno.EIO, errno.ENOSPC, errno.EACCES][seed % 3])
        try:
            if interrupt:
                with interrupt:
                    try:
                        res = f(o, gen(e))
                    finally:
                        sys.settrace(None)
            else:
                res = f(o, gen(e))
        except Violation as v:
            fail(v.cls, v.msg)
        except KeyboardInterrupt as x:
            exc = x
        except Exception as x:
            exc = x
        finally:
            nfailed = ns.mem.stats()['failed']
            ns.mem.off()
            ns.files.limit(None)
            fired = sum(ns.files.fired.values())
            ns.files.plan, ns.files.fired = [], {}
        if exc is not None:
            history.append(f'{label} fails ({where}: {type(exc).__name__})')
            exc.__traceback__ = None if mode != 'call' else exc.__traceback__
            if ref[0] == 'raises' and (mode == 'call' or type(exc).__name__ == ref[1]):
                info.probes[f'rejected_{family}.{name}'] += 1
            elif mode == 'call':
                import traceback

                tb = ''.join(traceback.format_tb(exc.__traceback__)[-3:])
                fail('raises', f'{label} raises {exc!r} where it returns on objects just made\n{tb}')
            failed += 1
            info.faults[
                {'alloc': 'failed_allocation', 'line': 'interrupt', 'file': 'file_error', 'call': 'rejected_call'}[mode]
            ] += 1
            exc = None
            # what pyoperators leaves in its pool
            ns.pool._buffers = []
            gc.collect(0)
        else:
            history.append(f'{label} returns' + (f' ({where})' if where else ''))
            done += 1
            if mode == 'alloc' and nfailed:
                info.faults['survived_allocation_failure'] += 1
            d = (
                f'returns where {ref[1]} is raised for objects just made'
                if ref[0] == 'raises'
                else differ(canon(res), ref[1], True, 'result')
            )
            if d and not (name == 'replace' and mode == 'file'):
                fail('result', f'{label}: {d}')
            if mode == 'line' and interrupt.where and exc is None:
                info.probes['swallowed_interrupt'] += 1
        d = changed(snaps[p], o)
        if d:
            fail('altered', f'{label} alters {d}')
        if res is not None and 'F' in opt:
            scribble(res, True, 'H' in opt)
            d = changed(snaps[p], o)
            if d:
                fail('result-shared', f'{label}: altering the result alters {d}')
        for n in os.listdir(ns.tmp):
            os.remove(os.path.join(ns.tmp, n))
        s = state()
        if s != state0:
            fail('global-state', f'{label} leaves {s} instead of {state0}')
        info.key(label, mode, where)
    info.stats['calls_returned'] += done
    info.stats['calls_failed'] += failed
    for h in history:
        info.log(h)
    for (p, n, s), r in sorted(refs.items(), key=str):
        info.log(p, n, s, repr(r[1])[:2000], r[3])
    info.nontrivial = done >= 2 or failed >= 1
    return info
