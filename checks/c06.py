"""C06: a collective call which fails on one process fails on all of them, without hanging."""

import errno
import os

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C06'
RULE = (
    'A case is a collective call by 2-6 processes (save and load of FITS arrays, maps and timelines, gathering of FITS '
    'headers, scatter and acquisition set-up) with arguments which are incompatible across processes, or with an I/O '
    'fault met by one of them (disk full at some byte, failed collective write, file which cannot be created or '
    'removed, missing directory, missing or truncated file), under a seeded schedule. Non-trivial: every case. '
    'Distinct: by the scheduling choices taken.'
)
REAL = ['pysimulators.mpiutils', 'pysimulators.datatypes', 'pysimulators.packedtables', 'pysimulators.acquisitions',
        'astropy.io.fits', 'the file system (scratch directory; disk full is RLIMIT_FSIZE)']
STUB = ['mpi4py and its collective file access (SimMPI)', 'errors of open and remove (file seam)']
BUDGET = {'quick': (8000, 40), 'thorough': (300000, 1200)}
ASSUMPTIONS = ['the faults which are injected are those of the shared file system or of the process which does the I/O '
               'on behalf of the others']

BAD = ['name', 'ndim', 'shape', 'uneven', 'load_name', 'header', 'header_wcs', 'missing', 'isdir', 'nodir', 'scattered',
       'grid', 'dtype_bad', 'attributes', 'attributes', 'dtypes', 'gather']
FAULT = ['full', 'full', 'mpiwrite', 'create', 'remove', 'truncated', 'truncated', 'none', 'no_ext', 'bad_unit']


def generate(rng, tier):
    c = {'n': rng.choice([2, 2, 3, 4, 6]), 'wseed': rng.getrandbits(32)}
    c['kind'] = rng.choice(BAD + FAULT * 3)
    c['cls'] = rng.choice(['FitsArray', 'Map', 'Tod'])
    c['shape'] = [rng.choice([1, 3, 6, 12, 40, 400]), rng.choice([1, 2, 5])]
    c['dt'] = rng.choice(['f4', 'f8', 'i2', 'u1'])
    c['who'] = rng.randrange(c['n'])
    c['extra'] = rng.random() < 0.6
    c['unit'] = rng.random() < 0.3
    c['x'] = round(rng.random(), 4)
    c['seed'] = rng.getrandbits(31)
    c['exists'] = rng.random() < 0.4
    return c


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def run(c, ns):
    info = Info()
    from astropy.io import fits

    import pysimulators as ps
    from pyoperators import MPI
    from pyoperators.utils import split
    from pysimulators import mpiutils as mu

    tmp = ns.tmp
    kind, who, n = c['kind'], c['who'], c['n']
    cls = getattr(ps, c['cls'])
    shape = tuple(c['shape'])
    rng = np.random.Generator(np.random.PCG64(c['seed']))
    G = (rng.integers(0, 200, shape)).astype(c['dt'])
    E = rng.integers(0, 200, shape).astype('f8')
    name = os.path.join(tmp, 'a.fits')
    ref = os.path.join(tmp, 'ref.fits')

    def make(s):
        k = dict(dtype=G.dtype)
        if c['extra']:
            if c['cls'] == 'Map':
                k.update(coverage=E[s].copy(), error=-E[s])
            elif c['cls'] == 'Tod':
                k['mask'] = E[s] > 100
        if c['unit']:
            k.update(unit='my', derived_units={'my': ps.Quantity(3.0, 'Jy')})
        return cls(G[s].copy(), **k)

    def content(path):
        a = cls(path)
        return [np.array(a.magnitude), a.unit] + [
            None if getattr(a, k, None) is None else np.array(getattr(a, k)) for k in ('coverage', 'error', 'mask')
        ]

    def equal(a, b):
        return all((x is None and y is None) or (isinstance(x, str) and x == y)
                   or (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and same(x, y)) for x, y in zip(a, b))

    make(slice(None)).save(ref)
    expected = content(ref)
    if c['exists']:
        cls(np.arange(1500.0).reshape(-1, 2)).save(name)
    faults = {}
    lost = []
    must = None     # whether an error is due

    def save(rank):
        comm = MPI.COMM_WORLD
        make(split(shape[0], comm.size, comm.rank)).save(name, comm=comm)

    def load(path):
        def f(rank):
            comm = MPI.COMM_WORLD
            a = cls(path, comm=comm)
            s = split(shape[0], comm.size, comm.rank)
            loaded = [np.array(a.magnitude), a.unit] + [
                None if getattr(a, k, None) is None else np.array(getattr(a, k)) for k in ('coverage', 'error', 'mask')
            ]
            part = [x[s] if isinstance(x, np.ndarray) else x for x in expected]
            for k in lost:
                if loaded[k] is None:
                    part[k] = None
            if not equal(loaded, part):
                raise Violation('silently-wrong', f'{kind}: load by rank {rank} gives {loaded} instead of {part}'[:800])
        return f

    def body_for(func):
        return func

    body = save
    check_file = True
    fs = ns.files
    if kind == 'full':
        size = os.path.getsize(ref)
        fs.limit(int(c['x'] * (size + 3000)))
    elif kind == 'mpiwrite':
        faults['write'] = {'countdown': int(c['x'] * 12)}
    elif kind == 'create':
        fs.fail('create', int(c['x'] * 5), errno.ENOSPC)
    elif kind == 'remove':
        fs.fail('remove', 0, errno.EACCES)
    elif kind in ('none', 'bad_unit'):
        must = False if kind == 'none' else None
        if kind == 'bad_unit' and c['unit']:
            must = True

            def body(rank):
                comm = MPI.COMM_WORLD
                a = make(split(shape[0], comm.size, comm.rank))
                # cannot be pickled
                a.derived_units = {'my': lambda x: ps.Quantity(3.0, 'Jy')}
                a.save(name, comm=comm)
    elif kind == 'truncated':
        size = os.path.getsize(ref)
        cut = int(c['x'] * size)
        with open(ref, 'rb') as f:
            raw = f.read()
        with open(name, 'wb') as f:
            f.write(raw[:cut])
        # HDUs which are not in what remains of the file: nothing tells that they were there
        with fits.open(ref) as f:
            for h in f:
                k = {'COVERAGE': 2, 'ERROR': 3, 'MASK': 4}.get(h.name.upper())
                if k and h.fileinfo()['datLoc'] > cut:
                    lost.append(k)
        body = load(name)
        check_file = False
    elif kind == 'no_ext':
        # nothing more than the primary HDU
        with fits.open(ref) as f:
            f[0].copy().writeto(name, overwrite=True)
        expected[2:] = [None, None, None]
        if c['unit']:
            expected[1] = fits.getheader(ref)['BUNIT']
        body = load(name)
        check_file = False
        must = False
    else:
        must = True
        check_file = False
        if kind == 'name':
            def body(rank):
                comm = MPI.COMM_WORLD
                p = name + 'x' if rank == who else name
                make(split(shape[0], comm.size, comm.rank)).save(p, comm=comm)
        elif kind == 'ndim':
            def body(rank):
                comm = MPI.COMM_WORLD
                a = G[split(shape[0], comm.size, comm.rank)]
                ps.FitsArray(a[..., None] if rank == who else a, dtype=G.dtype).save(name, comm=comm)
        elif kind == 'shape':
            def body(rank):
                comm = MPI.COMM_WORLD
                a = G[split(shape[0], comm.size, comm.rank)]
                ps.FitsArray(np.hstack([a, a]) if rank == who else a, dtype=G.dtype).save(name, comm=comm)
        elif kind == 'uneven':
            def body(rank):
                comm = MPI.COMM_WORLD
                a = np.zeros((3 + (1 if who != 0 else 2) * (rank == who), 2))
                ps.FitsArray(a).save(name, comm=comm)
        elif kind == 'load_name':
            def body(rank):
                cls(ref + 'x' if rank == who and c['exists'] else name if rank == who else ref, comm=MPI.COMM_WORLD)
            if c['exists']:
                with open(ref, 'rb') as f, open(ref + 'x', 'wb') as g:
                    g.write(f.read())
            else:
                make(slice(None)).save(name)
        elif kind == 'missing':
            def body(rank):
                cls(os.path.join(tmp, 'none.fits'), comm=MPI.COMM_WORLD)
        elif kind == 'isdir':
            name = os.path.join(tmp, 'adir')
            os.mkdir(name)
        elif kind == 'nodir':
            name = os.path.join(tmp, 'no', 'a.fits')
        elif kind in ('header', 'header_wcs'):
            def body(rank):
                comm = MPI.COMM_WORLD
                h = ps.create_fitsheader((5, 4 * n), cdelt=0.1, crval=(3, 4))
                h = mu.scatter_fitsheader(h, comm=comm)
                if rank == who:
                    if kind == 'header':
                        h[['CRVAL1', 'CRVAL2', 'CRPIX1', 'NAXIS1'][c['seed'] % 4]] += 1
                    else:
                        del h[['CRVAL1', 'CRPIX2', 'CTYPE1'][c['seed'] % 3]]
                mu.gather_fitsheader_if_needed(h, comm=comm)
        elif kind == 'scattered':
            def body(rank):
                comm = MPI.COMM_WORLD
                kind_ = c['seed'] % 3
                if kind_ == 0:
                    t = ps.PackedTable(shape).scatter(comm)
                elif kind_ == 1:
                    t = ps.SamplingEquatorial(np.zeros(5), np.zeros(5)).scatter(comm)
                else:
                    t = ps.Instrument(ps.PackedTable(shape)).scatter(comm)
                t.scatter(comm)
        elif kind == 'grid':
            def body(rank):
                k = {'nprocs_' + ['instrument', 'sampling'][c['seed'] % 2]: n + 1 if c['seed'] // 2 % 2 else -1}
                ps.Acquisition(ps.Instrument(ps.PackedTable(shape)), ps.SamplingEquatorial(np.zeros(5), np.zeros(5)),
                               ps.Scene(3), comm=MPI.COMM_WORLD, **k)
        elif kind == 'attributes':
            def body(rank):
                comm = MPI.COMM_WORLD
                s = split(shape[0], comm.size, comm.rank)
                u = dict(unit='my', derived_units={'my': ps.Quantity(3.0, 'Jy')}) if c['unit'] else {}
                what = c['seed'] % (4 if c['cls'] != 'FitsArray' else 2)
                # what this process only has, or lacks
                odd = (rank == who) == (c['seed'] // 4 % 2 == 0)
                a = cls(G[s].copy(), dtype=G.dtype, **u)
                if what == 0:
                    a.unit = 'mJy' if odd else 'Jy'
                elif what == 1:
                    a.derived_units = {'my': ps.Quantity(3.0, 'Jy')} if odd else {}
                elif odd and c['cls'] == 'Tod':
                    a.mask = E[s] > 100
                elif odd:
                    setattr(a, ['coverage', 'error'][what - 2], E[s].copy())
                a.save(name, comm=comm)
        elif kind == 'gather':
            def body(rank):
                comm = MPI.COMM_WORLD
                t = ps.PackedTable(shape, ndim=1).scatter(comm)
                x = np.ones((len(t), 2), c['dt'])
                if rank == who:
                    what = c['seed'] % 4
                    if what == 0:
                        x = np.ones((len(t) + 1, 2), c['dt'])
                    elif what == 1:
                        x = np.ones((len(t), 3), c['dt'])
                    elif what == 2:
                        x = x.astype('>i8')
                    else:
                        x = x[:, 0]
                t.gather(x)
        elif kind == 'dtypes':
            def body(rank):
                comm = MPI.COMM_WORLD
                s = split(shape[0], comm.size, comm.rank)
                other = {'f4': ['i4', 'f8'], 'f8': ['f4', 'i8'], 'i2': ['u2', 'i4'], 'u1': ['i1', 'f4']}[c['dt']]
                dt = other[c['seed'] % 2] if rank == who else c['dt']
                if c['extra'] and c['cls'] == 'Map':
                    a = ps.Map(G[s].copy(), dtype=G.dtype, coverage=G[s].astype(dt))
                else:
                    a = cls(G[s].astype(dt), dtype=dt)
                a.save(name, comm=comm)
        elif kind == 'dtype_bad':
            def body(rank):
                comm = MPI.COMM_WORLD
                a = G[split(shape[0], comm.size, comm.rank)].astype('f2')
                ps.FitsArray(a, dtype='f2').save(name, comm=comm)

    w = mpicheck.world(c, ns, body, info, faults=faults or None)
    fired = dict(fs.fired)
    limited = kind == 'full'
    fs.reset()
    raised = mpicheck.agreed(w)
    if must is not None and raised != must:
        if must:
            raise Violation('no-error', f'{kind}: nobody raised')
        mpicheck.succeeded(w)
    if not raised and check_file:
        try:
            got = content(name)
        except Exception as exc:
            raise Violation('silently-wrong', f'{kind}: nobody raised, but the file cannot be read: {exc!r}')
        if not equal(got, expected):
            raise Violation('silently-wrong', f'{kind}: nobody raised, but the file has {got}, not {expected}'[:800])
        if os.path.getsize(name) != os.path.getsize(ref):
            raise Violation('silently-wrong', f'{kind}: nobody raised, but the file has {os.path.getsize(name)} bytes, '
                                              f'not {os.path.getsize(ref)}')
        with fits.open(name) as f:
            if [h.name for h in f] != [h.name for h in fits.open(ref)]:
                raise Violation('silently-wrong', f'{kind}: nobody raised, but the HDUs are {[h.name for h in f]}')
    info.probes[f'{kind}_{"raised" if raised else "passed"}'] += 1
    for k, v in fired.items():
        info.faults['io_error_' + k] += v
    if limited and raised:
        info.faults['disk_full'] += 1
    if kind == 'truncated':
        info.faults['truncated_file'] += 1
    if must:
        info.faults['incompatible_arguments'] += 1
    info.log(kind, raised)
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for k, v in (('extra', False), ('unit', False), ('exists', False), ('cls', 'FitsArray'), ('dt', 'f8')):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c['n'] > 2:
        yield dict(c, n=2, who=min(c['who'], 1))
    for s in ([1, 1], [3, 1], [c['shape'][0], 1]):
        if s != c['shape']:
            yield dict(c, shape=s)


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
