"""C04: FITS headers are scattered and gathered consistently."""

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C04'
RULE = (
    'A case is a FITS header (1 to 3 axes, with or without a world coordinate system, several projections), a job of '
    '1-8 processes, a rank-schedule seed and a sequence of scatter, gather and gather-if-needed calls, some with a '
    'keyword altered on one process. Non-trivial: more than one process. Distinct: by the scheduling choices taken.'
)
REAL = ['pysimulators.mpiutils', 'pysimulators.wcsutils', 'astropy.io.fits']
STUB = ['mpi4py (SimMPI)']
BUDGET = {'quick': (12000, 30), 'thorough': (300000, 900)}


def generate(rng, tier):
    c = {'n': rng.choice([1, 2, 2, 3, 4, 5, 8]), 'wseed': rng.getrandbits(32)}
    nd = rng.choice([1, 2, 2, 2, 3])
    c['naxis'] = [rng.randint(1, 12) for _ in range(nd)]
    c['wcs'] = rng.choice(['none', 'full', 'full', 'crpix'])
    c['ctype'] = rng.choice([['RA---TAN', 'DEC--TAN'], ['GLON-CAR', 'GLAT-CAR']])
    c['crpix'] = [rng.choice([round(rng.uniform(-5, 15), 2), rng.randrange(-2, 4), 0]) for _ in range(nd)]
    c['comm'] = rng.choice(['world', 'world', 'dup', 'halves'])
    ops = ['scatter', 'gather', 'needed_local', 'needed_global', 'differ', 'nowcs', 'scatter_array']
    c['ops'] = [[rng.choice(ops), rng.getrandbits(16)] for _ in range(rng.randint(1, 5))]
    return c


def cards(h):
    return list(h.items())


def run(c, ns):
    info = Info()
    from astropy.io import fits
    from pyoperators import MPI
    from pyoperators.utils import split
    from pysimulators import mpiutils as mu

    nd = len(c['naxis'])
    nx = c['naxis'][-1]

    def header():
        h = fits.Header()
        h['SIMPLE'] = True
        h['BITPIX'] = -64
        h['NAXIS'] = nd
        for i, n in enumerate(c['naxis']):
            h[f'NAXIS{i + 1}'] = n
        h['OBJECT'] = 'sky'
        if c['wcs'] == 'crpix':
            for i in range(nd):
                h[f'CRPIX{i + 1}'] = c['crpix'][i]
        elif c['wcs'] == 'full':
            for i in range(nd):
                h[f'CRPIX{i + 1}'] = c['crpix'][i]
                h[f'CRVAL{i + 1}'] = 10.0 * (i + 1)
                h[f'CDELT{i + 1}'] = 0.5
                h[f'CTYPE{i + 1}'] = c['ctype'][i] if i < 2 else 'FREQ'
        return h

    G = header()

    def local(comm):
        h = header()
        s = split(nx, comm.size, comm.rank)
        h[f'NAXIS{nd}'] = s.stop - s.start
        if f'CRPIX{nd}' in h:
            h[f'CRPIX{nd}'] -= s.start
        return h

    def same(a, b, what):
        if set(a) != set(b):
            raise Violation('keywords', f'{what}: {sorted(set(a) ^ set(b))}')
        for k in b:
            ok = abs(a[k] - b[k]) < 1e-9 if isinstance(b[k], float) else a[k] == b[k]
            if not ok:
                raise Violation('header', f'{what}: {k} is {a[k]!r}, not {b[k]!r}')

    def body(rank):
        comm = MPI.COMM_WORLD
        if c['comm'] == 'dup':
            comm = comm.Dup()
        elif c['comm'] == 'halves':
            comm = comm.Split(rank % 2, rank)
        L = local(comm)
        for op, seed in c['ops']:
            who = seed % comm.size
            if op == 'scatter':
                h = header()
                out = mu.scatter_fitsheader(h, comm=comm)
                same(out, L, f'scattered header on process {comm.rank}')
                same(h, G, 'the input header')
                ns_ = comm.allgather(out[f'NAXIS{nd}'])
                if sum(ns_) != nx or max(ns_) - min(ns_) > 1:
                    raise Violation('partition', f'{nx} elements are distributed in {ns_}')
            elif op == 'gather':
                h = local(comm)
                out = mu.gather_fitsheader(h, comm=comm)
                same(out, G, f'gathered header on process {comm.rank}')
                same(h, L, 'the input header')
            elif op in ('needed_local', 'needed_global'):
                if c['wcs'] != 'full':
                    continue
                h = local(comm) if op == 'needed_local' else header()
                out = mu.gather_fitsheader_if_needed(h, comm=comm)
                same(out, G, f'{op} header on process {comm.rank}')
            elif op in ('differ', 'nowcs'):
                if c['wcs'] != 'full' or comm.size == 1:
                    continue
                h = local(comm)
                if comm.rank == who:
                    keys = ['CRVAL1', 'CDELT1'] + (['CRVAL2', 'CTYPE1', 'CDELT2', 'NAXIS1', 'CRPIX1'] if nd > 1 else ['CTYPE1'])
                    k = keys[seed // 16 % len(keys)]
                    if op == 'nowcs':
                        del h[['CRVAL1', 'CTYPE1', f'CRPIX{nd}'][seed // 16 % 3]]
                    elif k == 'CTYPE1':
                        h[k] = 'ELON-CAR'
                    else:
                        h[k] = h[k] + 1
                try:
                    mu.gather_fitsheader_if_needed(h, comm=comm)
                except ValueError:
                    continue
                raise Violation('no-error', f'{op} on process {who}: no error on process {comm.rank}')
            elif op == 'scatter_array':
                # there and back
                h = mu.gather_fitsheader(mu.scatter_fitsheader(header(), comm=comm), comm=comm)
                same(h, G, f'scattered and gathered header on process {comm.rank}')

    w = mpicheck.world(c, ns, body, info)
    mpicheck.succeeded(w)
    info.nontrivial = c['n'] > 1
    info.probes['fewer_elements_than_processes'] += nx < c['n']
    for op, _ in c['ops']:
        info.probes['op_' + op] += 1
    info.log(cards(G))
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    if c['comm'] != 'world':
        yield dict(c, comm='world')
    for n in (1, 2, 3):
        if n < c['n']:
            yield dict(c, n=n)
    if len(c['naxis']) > 1:
        yield dict(c, naxis=c['naxis'][1:], crpix=c['crpix'][1:])


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
