"""C03: FITS files written and read collectively are those of a single process."""

import os
from pathlib import Path

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C03'
RULE = (
    'A case is a sequence of collective saves of a distributed FitsArray, Map or Tod (dtype, byte order, memory layout, '
    'shape, header, unit, derived units, coverage, error, mask, communicator) by 1-7 processes into one or several '
    'files, each followed by a collective load by 1-7 processes, under a seeded schedule of the processes in which '
    'opening and removing files are scheduling points and collective writes are made in pieces. Non-trivial: more than '
    'one writer or reader. Distinct: by the scheduling choices taken.'
)
REAL = ['pysimulators.mpiutils', 'pysimulators.datatypes', 'pysimulators.wcsutils', 'astropy.io.fits',
        'the file system (scratch directory)', 'numpy']
STUB = ['mpi4py and its collective file access (SimMPI: pieces of the data written at scheduled points with pwrite)']
BUDGET = {'quick': (2500, 40), 'thorough': (200000, 1500)}
ASSUMPTIONS = ['the file system is shared by all processes and is coherent']

DT = ['u1', 'i2', 'i4', 'i8', 'f4', 'f8', 'f4', 'f8', 'u2', 'i1', 'u4']


def generate(rng, tier):
    c = {'n': rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), 'wseed': rng.getrandbits(32), 'jobs': []}
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        j = {'cls': rng.choice(['FitsArray', 'Map', 'Tod', 'Map'])}
        nd = {'FitsArray': rng.choice([1, 2, 2, 3]), 'Map': rng.choice([2, 2, 2, 3]), 'Tod': rng.choice([1, 2, 2])}[j['cls']]
        j['shape'] = [rng.choice([1, 2, 3, 5, 8, 13, 30])] + [rng.choice([1, 2, 3, 7]) for _ in range(nd - 1)]
        if rng.random() < 0.05:
            j['shape'][0] = 0
        if rng.random() < 0.1:
            # the data fill FITS blocks exactly
            j['shape'] = [rng.choice([24, 12, 8])] + [120] * (nd - 1)
            if nd == 3:
                j['shape'] = [12, 12, 40]
            elif nd == 1:
                j['shape'] = [2880]
        j['dt'] = rng.choice(DT)
        j['swap'] = rng.random() < 0.2
        j['layout'] = rng.choice(['C', 'C', 'F', 'strided', 'reversed'])
        j['header'] = rng.choice([None, None, 'scattered', 'global']) if nd > 1 else None
        j['ctype'] = rng.choice([['RA---TAN', 'DEC--TAN'], ['RA---TAN', 'DEC--TAN'], ['GLON-CAR', 'GLAT-CAR']])
        j['unit'] = rng.choice(['', 'Jy', 'Jy / pixel', 'my'])
        j['extra'] = [k for k in ('coverage', 'error', 'mask') if rng.random() < 0.5]
        j['comm'] = rng.choice(['world', 'world', 'world', 'dup', 'halves', 'self'])
        j['m'] = rng.choice([1, 2, 3, 4, 7])
        j['path'] = rng.choice(['str', 'str', 'Path'])
        j['file'] = rng.randrange(2)
        j['again'] = rng.random() < 0.3
        j['ask'] = rng.choice([None, None, '', 'K'])
        j['origin'] = [rng.choice([None, 'lower', 'upper']), rng.choice([None, None, 'lower', 'upper'])]
        j['given'] = [k for k in ('coverage', 'error', 'mask') if rng.random() < 0.2]
        j['seed'] = rng.getrandbits(31)
        c['jobs'].append(j)
    return c


def values(j, shape, what=0):
    g = np.random.Generator(np.random.PCG64([j['seed'], what]))
    dt = np.dtype(j['dt'])
    if dt.kind == 'f':
        a = g.standard_normal(shape).astype(dt)
    else:
        ii = np.iinfo(dt)
        a = g.integers(ii.min, ii.max, shape, dt, endpoint=True)
    return a


def laid(a, layout, swap):
    if swap:
        a = a.astype(a.dtype.newbyteorder('S'))
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def cards(h):
    return {k: v for k, v in h.items() if k not in ('COMMENT', 'HISTORY', 'EXTEND', '')}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.newbyteorder('=') == b.dtype.newbyteorder('=') and np.array_equal(a, b)


def run(c, ns):
    info = Info()
    from astropy.io import fits

    import pysimulators as ps
    from pyoperators import MPI
    from pyoperators.utils import split
    from pysimulators.mpiutils import scatter_fitsheader

    tmp = ns.tmp
    info.nontrivial = c['n'] > 1

    def content(j):
        """The global array and the keywords of its parts."""
        shape = tuple(j['shape'])
        G = values(j, shape)
        kw = {}
        if j['cls'] == 'Map':
            if 'coverage' in j['extra']:
                kw['coverage'] = values(dict(j, dt='f8'), shape, 1)
            if 'error' in j['extra']:
                kw['error'] = values(dict(j, dt='f4'), shape, 2)
        elif j['cls'] == 'Tod' and 'mask' in j['extra']:
            kw['mask'] = values(dict(j, dt='u1'), shape, 3) % 3 == 0
        h = None
        if j['header']:
            h = ps.create_fitsheader(shape[::-1], dtype=G.dtype, crval=(10, 20), crpix=(3.5, 7.25), cdelt=0.25, ctype=j['ctype'])
            if len(shape) == 3:
                h['CRPIX3'], h['CRVAL3'], h['CDELT3'] = 2.5, 1.0, 0.5
            h['AKEY'] = j['seed'] % 100
        return G, kw, h

    def make(j, part, h):
        G, kw, _ = content(j)
        keys = dict(unit=j["unit"], copy=None, dtype=G.dtype if j["dt"] != "x" else None)
        if j['unit'] == 'my':
            keys['derived_units'] = {'my': ps.Quantity(3.0, 'Jy')}
        if j['cls'] == 'Map':
            keys['origin'] = j.get('origin', [None])[0]
        for k, v in kw.items():
            keys[k] = laid(v[part], j['layout'], False)
        return getattr(ps, j['cls'])(laid(G[part], j['layout'], j['swap']), header=h, **keys)

    def reference(j, name, h):
        make(j, slice(None), h).save(name)

    def same_file(name, ref, what):
        size = os.path.getsize(name)
        with fits.open(ref, memmap=False) as r, fits.open(name, memmap=False) as f:
            if len(r) != len(f):
                raise Violation('hdus', f'{what}: the HDUs are {[_.name for _ in f]}, not {[_.name for _ in r]}')
            for a, b in zip(f, r):
                if a.name != b.name:
                    raise Violation('hdus', f'{what}: the HDUs are {[_.name for _ in f]}, not {[_.name for _ in r]}')
                ca, cb = cards(a.header), cards(b.header)
                if ca != cb:
                    diff = {k: (ca.get(k), cb.get(k)) for k in set(ca) | set(cb) if ca.get(k) != cb.get(k)}
                    raise Violation('header', f'{what}: header of {a.name}: {diff}')
                if not same(a.data, b.data):
                    raise Violation('data', f'{what}: {a.name}: {np.asarray(a.data).tolist()} is not '
                                            f'{np.asarray(b.data).tolist()}'[:600])
            f.verify('exception')
        if size % 2880 or size != os.path.getsize(ref):
            raise Violation('size', f'{what}: the size of the file is {size} bytes, that of a single process '
                                    f'{os.path.getsize(ref)}')

    def communicator(j, r):
        """The communicator, and the group the process is in."""
        world = MPI.COMM_WORLD
        if j['comm'] == 'dup':
            return world.Dup(), 0
        if j['comm'] == 'halves':
            return world.Split(r % 2, r), r % 2
        if j['comm'] == 'self':
            return MPI.COMM_SELF, r
        return world, 0

    written = {}
    for ij, j in enumerate(c['jobs']):
        cls = getattr(ps, j['cls'])
        _, _, gh = content(j)
        what = f'job {ij}'

        def name(group):
            p = os.path.join(tmp, f"{j['comm']}{group}-{j['file']}.fits")
            return p

        def write(rank):
            comm, group = communicator(j, rank)
            s = split(j['shape'][0], comm.size, comm.rank)
            h = None if gh is None else scatter_fitsheader(gh, comm) if j['header'] == 'scattered' else gh.copy()
            local = make(j, s, h)
            p = name(group)
            local.save(Path(p) if j['path'] == 'Path' else p, comm=comm)
            return group

        groups = set(mpicheck.succeeded(mpicheck.world(c, ns, write, info)))
        ref = os.path.join(tmp, f'ref{ij}')
        reference(j, ref, None if gh is None else gh.copy())
        for g in sorted(groups):
            same_file(name(g), ref, what)
            written[name(g)] = ref

        def read(rank):
            comm, group = communicator(dict(j, comm='world' if j['comm'] == 'self' else j['comm']), rank)
            p = name(group if group in groups else 0)
            comm0 = comm
            s = split(j['shape'][0], comm.size, comm.rank)
            ask = {} if j['ask'] is None else {'unit': j['ask']}
            G, kw, _ = content(j)
            if j['cls'] == 'Map' and j.get('origin', [None, None])[1]:
                ask['origin'] = j['origin'][1]
            local_ask, expected_ask = dict(ask), dict(ask)
            for k in j.get('given', []):
                # what is given is not taken from the file
                if k == 'mask' and j['cls'] == 'Tod':
                    kw[k] = values(dict(j, dt='u1'), tuple(j['shape']), 4) % 2 == 0
                elif k != 'mask' and j['cls'] == 'Map':
                    kw[k] = values(dict(j, dt='f8'), tuple(j['shape']), 5)
                else:
                    continue
                local_ask[k], expected_ask[k] = kw[k][s], kw[k]
            local = cls(Path(p) if j['path'] == 'Path' else p, comm=comm, **local_ask)
            expected = cls(ref if j['path'] == 'str' else Path(ref), **expected_ask)
            w = f'{what}: read by {comm0.size}, process {comm0.rank}'
            if not same(local.magnitude, np.asarray(expected.magnitude)[s]):
                raise Violation('read', f'{w}: {local.magnitude.tolist()} is not {expected.magnitude[s].tolist()}'[:600])
            if not local.dtype.isnative:
                raise Violation('read', f'{w}: dtype {local.dtype.str}')
            if local.unit != expected.unit or set(local.derived_units) != set(expected.derived_units):
                raise Violation('unit', f'{w}: unit {local.unit!r} {local.derived_units}, not '
                                        f'{expected.unit!r} {expected.derived_units}')
            if j['cls'] == 'Map':
                origin = j.get('origin', [None, None])[1] or j.get('origin', [None])[0] or 'lower'
                if local.origin != origin:
                    raise Violation('origin', f'{w}: origin {local.origin!r}, not {origin!r}')
            if 'unit' in ask and local.unit != j['ask']:
                raise Violation('unit', f"{w}: unit {local.unit!r}, {j['ask']!r} was asked for")
            hl, he = cards(local.header), cards(scatter_fitsheader(expected.header, comm))
            if hl != he:
                diff = {k: (hl.get(k), he.get(k)) for k in set(hl) | set(he) if hl.get(k) != he.get(k)}
                raise Violation('read-header', f'{w}: header {diff}')
            for k, v in kw.items():
                a = getattr(local, k)
                if a is None or not same(a, v[s]):
                    raise Violation('read-' + k, f'{w}: {k} {a} is not {v[s].tolist()}'[:600])
            if j['again']:
                # what was read is saved again
                p2 = os.path.join(tmp, f'again{group}.fits')
                local.save(p2, comm=comm)
                comm.Barrier()
                if comm.rank == 0:
                    expected.save(p2 + '.ref')
                    same_file(p2, p2 + '.ref', f'{w}, saved again')
                comm.Barrier()

        m = j['m']
        if groups != {0} and j['comm'] == 'halves' and m == 1:
            m = 2
        mpicheck.succeeded(mpicheck.world(dict(c, n=m), ns, read, info))
        info.nontrivial |= m > 1
        info.probes['cls_' + j['cls']] += 1
        info.probes['comm_' + j['comm']] += 1
        info.probes['fewer_rows_than_writers'] += j['shape'][0] < c['n']
        info.probes['fewer_rows_than_readers'] += j['shape'][0] < m
        info.probes['full_blocks'] += int(np.prod(j['shape'])) * np.dtype(j['dt']).itemsize % 2880 == 0
        for k in j['extra']:
            info.probes['has_' + k] += 1
        info.log(j['shape'])
    info.log(sorted(ns.files.fired.items()))
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['jobs'])):
        if len(c['jobs']) > 1:
            yield dict(c, jobs=c['jobs'][:i] + c['jobs'][i + 1:])
    if c['n'] > 1:
        yield dict(c, n=1)
        yield dict(c, n=2)
    for i, j in enumerate(c['jobs']):
        for k, v in (('cls', 'FitsArray'), ('swap', False), ('layout', 'C'), ('header', None), ('unit', ''),
                     ('extra', []), ('comm', 'world'), ('m', 1), ('m', 2), ('path', 'str'), ('again', False), ('ask', None),
                     ('dt', 'f8'), ('shape', [1] * len(j['shape'])), ('shape', [2] * len(j['shape'])),
                     ('shape', [3] + [1] * (len(j['shape']) - 1))):
            if j[k] != v:
                yield dict(c, jobs=c['jobs'][:i] + [dict(j, **{k: v})] + c['jobs'][i + 1:])


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
