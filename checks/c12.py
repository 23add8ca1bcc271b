"""C12: MADMAP1 observations."""

import contextlib
import errno
import io
import os
import sys

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C12'
RULE = (
    'A case is the files of a MADMAP1 observation (blocks, detectors, samples, correlations, pixels per sample, endianness, '
    'mask by value, name, other files in the directory), the order of the directory, faults (a file truncated anywhere, '
    'missing, which cannot be opened, whose reading stops early, or changed after the observation is opened), and a history '
    'of readings of the TOD, of the projection and of the filters, before and after the faults stop; the projection is '
    'applied on one thread then on several ones under seeded schedules. Non-trivial: the observation was read, or a fault '
    'was met. Distinct: by the shapes, the faults and the interleavings taken.'
)
REAL = ['pysimulators.interfaces.madmap1, pysimulators.operators (projection), acquisitions, datatypes',
        'src/flib/pointingmatrix_old.f90, module_pointingmatrix.f90', 'pyoperators', 'astropy.io.fits', 'numpy', 'pyfftw',
        'the file system (scratch directory)']
STUB = ['the OpenMP runtime (SimOMP)', 'open, listdir and numpy.fromfile, which may fail, reorder or stop early',
        'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (1500, 40), 'thorough': (80000, 1500)}
ASSUMPTIONS = ['a read error leaves numpy.fromfile with fewer elements than requested and no exception, as the C library does',
               'pyfftw: one thread and FFTW_ESTIMATE', 'a file changed without changing its size cannot be noticed']
FAULTS = ['truncate', 'truncate', 'missing', 'open', 'read', 'read', 'grow']


def generate(rng, tier):
    return {
        'T': rng.choice([2, 3, 4]), 'K': 2, 'dseed': rng.getrandbits(31), 'sseed': rng.getrandbits(31),
        'nblocks': rng.choice([1, 1, 2, 3, 12]), 'ndet': rng.choice([1, 2, 3]), 'ncorr': rng.choice([0, 1, 2, 3]),
        'npps': rng.choice([1, 2, 3]), 'n': [rng.choice([1, 2, 3, 5, 8]) for _ in range(12)],
        'big': rng.random() < 0.5, 'mask': rng.choice(['nonzero', 'nan', 'inf', 'value']), 'npix': rng.choice([1, 3, 10]),
        'name': rng.choice(['invntt', 'a+b', 'a.b', 'inv[x]', 'x(1)', 'dir.0/f']), 'ext': rng.random() < 0.5,
        'others': rng.random() < 0.5, 'order': rng.getrandbits(20),
        'fault': rng.choice(FAULTS) if rng.random() < 0.6 else None, 'when': rng.choice(['before', 'before', 'after']),
        'target': rng.choice(['tod', 'filter', 'filter', 'mask']), 'where': rng.random(), 'count': rng.randrange(4),
        'ops': [rng.choice(['tod', 'projection', 'invntt', 'filters', 'open']) for _ in range(rng.randrange(1, 4))],
        'relative': rng.random() < 0.3,
    }


def run(c, ns):
    with contextlib.redirect_stdout(io.StringIO()):
        return _run(c, ns)


def _run(c, ns):
    info = Info()
    import astropy.io.fits as pyfits
    from pysimulators.interfaces.madmap1 import MadMap1Observation

    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    sched = ompcheck.Sched(c, ns, info)
    e = '>' if c['big'] else '<'
    nb, nd, nps = c['nblocks'], c['ndet'], c['npps']
    n = c['n'][:nb]
    total = sum(n)

    # the files
    top = ns.tmp
    os.makedirs(os.path.join(top, os.path.dirname(c['name'])), exist_ok=True)
    paths = {'tod': os.path.join(top, 'tod.bin'), 'mask': os.path.join(top, 'mask.fits'), 'filter': os.path.join(top, c['name'])}
    npix = c['npix']
    shape = (3, npix)
    keep = np.zeros(3 * npix, bool)
    keep[rng.permutation(3 * npix)[:npix]] = True
    keep = keep.reshape(shape)
    good, bad, missing = {'nonzero': (0, 3, None), 'nan': (1, np.nan, np.nan), 'inf': (2, np.inf, np.inf),
                          'value': (1, -4, -4)}[c['mask']]
    m = np.where(keep, float(good), float(bad))
    # values which are not that of the masked pixels, however close to it
    others = {'nonzero': [0.0, -0.0], 'nan': [0.0, np.inf, -np.inf], 'inf': [0.0, np.nan], 'value': [4.0, np.nan, np.inf]}[c['mask']]
    m = np.where(keep & (rng.random(shape) < 0.4), rng.choice(others, size=shape), m)
    if c['mask'] in ('nonzero', 'inf'):
        values = [1.0, np.nan, np.inf, -2.0] if c['mask'] == 'nonzero' else [-np.inf]
        m = np.where(~keep & (rng.random(shape) < 0.4), rng.choice(values, size=shape), m)
    if c['ext']:
        hdus = pyfits.HDUList([pyfits.PrimaryHDU(), pyfits.ImageHDU(np.zeros(3), name='other'), pyfits.ImageHDU(m, name='cov')])
    else:
        hdus = pyfits.HDUList([pyfits.PrimaryHDU(m)])
    hdus.writeto(paths['mask'])
    filters = rng.integers(1, 20, size=(nb, nd, c['ncorr'] + 1)).astype(float)
    first = np.cumsum([0] + n)
    names = []
    for b in range(nb):
        for d in range(nd):
            name = f"{paths['filter']}.{b * nd + d}"
            names.append(name)
            with open(name, 'wb') as f:
                f.write(np.array([first[b], first[b + 1] - 1, c['ncorr']], e + 'i8').tobytes())
                f.write(filters[b, d].astype(e + 'f8').tobytes())
    if c['others']:
        base = paths['filter']
        for other in (base + '.0.bak', base + '.x', base + 'x0', os.path.join(os.path.dirname(base), 'a' + os.path.basename(base) + '.0'),
                      base.replace('+', '').replace('.b', 'xb') + 'z.7'):
            if not os.path.exists(other):
                with open(other, 'wb') as f:
                    f.write(b'\1' * 40)
        for like in {'a.b': 'axb', 'a+b': 'aab'}, {'inv[x]': 'invx', 'x(1)': 'x1'}:
            if c['name'] in like:
                with open(os.path.join(top, like[c['name']] + '.0'), 'wb') as f:
                    f.write(b'\1' * 40)
    tod = rng.integers(-99, 100, size=(nd, total)).astype(float)
    idx = rng.integers(npix, size=(nd, total, nps))
    val = rng.integers(1, 5, size=(nd, total, nps))
    with open(paths['tod'], 'wb') as f:
        f.write(np.array([0, total - 1, nps, npix], e + 'i8').tobytes())
        for b in range(nb):
            s = slice(first[b], first[b + 1])
            rec = np.zeros((nd, n[b]), [('t', e + 'f8'), ('m', [('v', e + 'f4'), ('i', e + 'i4')], (nps,))])
            rec['t'], rec['m']['v'], rec['m']['i'] = tod[:, s], val[:, s], idx[:, s]
            f.write(rec.tobytes())
    P = np.zeros((nd, total, npix))
    for d in range(nd):
        for t in range(total):
            for i, v in zip(idx[d, t], val[d, t]):
                P[d, t, i] += v

    if c['relative']:
        os.chdir(top)
    loc = {k: os.path.relpath(v, top) if c['relative'] else v for k, v in paths.items()}

    def observe():
        return MadMap1Observation(
            'name', nd, loc['tod'], loc['filter'], loc['mask'] + ('[cov]' if c['ext'] else ''), bigendian=c['big'],
            missing_value=missing)

    target = {'tod': paths['tod'], 'mask': paths['mask'], 'filter': names[c['count'] % len(names)]}[c['target']]
    with open(target, 'rb') as f:
        content = f.read()

    def fault():
        k = c['fault']
        if k == 'truncate':
            with open(target, 'wb') as f:
                f.write(content[:int(c['where'] * len(content))])
        elif k == 'grow':
            with open(paths['tod'], 'ab') as f:
                f.write(b'\0' * (1 + int(c['where'] * 20)))
        elif k == 'missing':
            os.remove(target)
        elif k == 'open':
            ns.files.fail('open', c['count'], [errno.EIO, errno.EACCES, errno.EMFILE][c['count'] % 3])
        elif k == 'read':
            ns.files.fail('read', int(c['where'] * 2 * (len(names) + 2)), 1 + int(c['where'] * 997) % 200)

    def repair():
        ns.files.plan = []
        with open(target, 'wb') as f:
            f.write(content)
        with open(paths['tod'], 'rb+') as f:
            f.truncate(32 + (nps + 1) * nd * total * 8)

    def attempt(what, fn):
        """what is wrong, None, or the exception"""
        try:
            return fn()
        except Violation:
            raise
        except Exception as x:
            if not faulty[0]:
                import traceback

                raise Violation('exception:' + what, f"{type(x).__name__}: {x}\n{''.join(traceback.format_tb(x.__traceback__)[-3:])}")
            info.probes['refused'] += 1
            refused[0] += 1
            return None

    def wrong(what, a, b, tol=None):
        d = ompcheck.same(np.asarray(a), np.asarray(b), tol)
        if d:
            raise Violation('wrong:' + what, (f"fault {c['fault']} of the {c['target']}: " if faulty[0] else '') + d)

    faulty, refused = [False], [0]
    ns.files.order = c['order']
    ns.mem.config(1 + c['order'] % 4, c['dseed'], -1, 0)

    def check(o, what, schedules=False):
        if faulty[0] and c['fault'] == 'missing' and c['target'] == 'filter' and what in ('open', 'filters', 'invntt'):
            # the number of blocks is that of the files: the TOD is refused then
            return
        if what == 'open':
            wrong('mask', o.info.mapmask, ~keep)
            wrong('blocks', np.array([o.block.n, o.block.start, o.block.stop]), np.array([n, first[:-1], first[1:]]))
        elif what == 'tod':
            t = o.get_tod()
            wrong('tod', t, tod)
            # what is done with it is not seen by the next reading
            t[...] = -5
            t = o.get_tod('K')
            wrong('tod', t, tod)
            if t.unit != 'K' or o.get_tod().unit != '':
                raise Violation('unit', f'unit of the TOD: {t.unit!r} then {o.get_tod().unit!r}')
        elif what == 'filters':
            wrong('filters', o.get_filter_uncorrelated(), filters)
        elif what == 'invntt':
            op = o.get_invntt_operator(fftw_flag='FFTW_ESTIMATE', nthreads=1)
            x = rng.integers(-9, 10, size=(nd, total)).astype(float)
            y = np.zeros((nd, total))
            for b in range(nb):
                k = np.abs(np.subtract.outer(np.arange(n[b]), np.arange(n[b])))
                for d in range(nd):
                    row = np.append(filters[b, d], np.zeros(max(total, 1)))
                    y[d, first[b]:first[b + 1]] = row[k] @ x[d, first[b]:first[b + 1]]
            wrong('invntt', op(x), y, (1e-9, 1e-9))
        else:
            op = o.get_projection_operator() if c['order'] % 2 else o.get_operator()
            x = rng.integers(-9, 10, size=npix).astype(float)
            y = rng.integers(-9, 10, size=(nd, total)).astype(float)
            wrong('projection', op(x), P @ x)
            wrong('transpose', op.T(y), np.einsum('ijk,ij->k', P, y))
            if schedules:
                sched('projection', lambda: np.asarray(op(x)), P @ x)
                sched('transpose', lambda: np.asarray(op.T(y)), np.einsum('ijk,ij->k', P, y))

    o = None
    if c['fault'] and c['when'] == 'after':
        o = attempt('open', observe)
    if c['fault']:
        fault()
        faulty[0] = True
    if o is None:
        o = attempt('open', observe)
    if o is not None:
        for what in c['ops']:
            attempt(what, lambda: check(o, what))
    if c['fault'] in ('read', 'open'):
        for k, v in ns.files.fired.items():
            info.faults['file_' + k] += v
        met = bool(ns.files.fired)
    else:
        if c['fault']:
            info.faults['file_' + c['fault']] += 1
        met = bool(c['fault'])
    # the faults stop
    if c['fault']:
        repair()
        faulty[0] = False
        o = attempt('open', observe) if o is None or c['count'] % 2 or c['fault'] == 'missing' else o
    for what in ('open', 'tod', 'filters', 'invntt', 'projection'):
        attempt(what, lambda: check(o, what, True))
    info.key(nb, nd, c['ncorr'], nps, c['fault'], c['target'], refused[0])
    info.nontrivial = True
    info.stats['faults_met'] += met
    return info


pin = ompcheck.pin(sys.modules[__name__])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if 'plan' not in c and len(c['ops']) > 1:
        for w in c['ops']:
            yield dict(c, ops=[w])
    yield from ompcheck.shrink_keys(c, {
        'fault': [None], 'nblocks': [1, 2], 'ndet': [1, 2], 'ncorr': [0, 1], 'npps': [1], 'npix': [1], 'others': [False],
        'big': [False], 'ext': [False], 'relative': [False], 'mask': ['nonzero'], 'name': ['invntt'], 'T': [2],
        'n': [[1] * 12, [3] * 12],
    })
