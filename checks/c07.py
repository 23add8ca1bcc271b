"""C07: sparse matrix products are those of the dense matrix, whatever the threads do."""

import operator
import sys

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C07'
RULE = (
    'A case is a fixed-sparse matrix (row or column storage, scalar, block, 2-d or 3-d rotation; dtypes of the indices, '
    'of the values and of the vectors; shape, number of elements per row or column, distribution of the indices, memory '
    'layout, number of broadcast components), 2-8 threads and operations (product, transposed product, accumulation, '
    'sums and compositions of operators, restriction, scaling, what must be refused), each run on one thread over two contents of the '
    'uninitialised memory, then under seeded schedules of the threads. Values are integers, so that results are exact '
    'whatever the order of the additions. Non-trivial: at least one region ran on several threads. Distinct: by the '
    'interleavings taken (hash of the switches).'
)
REAL = ['pysimulators.sparse', 'src/flib/sparse.f90.j2 (f2py wrappers included)', 'pyoperators', 'numpy']
STUB = ['the OpenMP runtime (SimOMP: team members are coroutines switched at memory accesses)',
        'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (9000, 45), 'thorough': (400000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

FMT = ['fsc', 'fsr', 'fscb', 'fsrb', 'fsc2', 'fsr2', 'fsc3', 'fsr3']
BLOCKS = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
OPS = ['mul', 'rmul', 'op', 'opT', 'iadd', 'iaddT', 'out', 'sum', 'ptp', 'ptp', 'pdp', 'scale', 'dense', 'restrict',
       'corestrict', 'copy', 'refuse']


def generate(rng, tier):
    c = {'fmt': rng.choice(FMT), 'T': rng.choice([2, 3, 4, 4, 8]), 'K': 3 if tier == 'quick' else 5}
    c['block'] = rng.choice(BLOCKS)
    c['nr'] = rng.choice([1, 2, 4, 9, 16, 24, 40])
    c['nc'] = rng.choice([1, 2, 4, 9, 16, 24, 40])
    if rng.random() < 0.03:
        c[rng.choice(['nr', 'nc'])] = 0
    c['nmax'] = rng.choice([1, 1, 1, 2, 3]) if rng.random() > 0.02 else 0
    c['di'] = rng.choice(['i4', 'i8'] * 6 + ['i2', 'i1', 'u4', 'u1', 'u8'])
    c['ds'] = rng.choice(['f4', 'f8'] * 6 + ['f2', 'i4', 'i8', 'c16', 'f16'])
    c['dv'] = rng.choice(['f4', 'f8'] * 5 + ['f2', 'i4', 'i1', 'c8', 'c16', 'f16', 'b1', '>f8', '>f4'])
    c['index'] = rng.choice(['same', 'few', 'any', 'any', 'perm'])
    c['neg'] = rng.choice([0.0, 0.0, 0.2, 0.9])
    c['extra'] = rng.choice([0, 0, 1, 2, 3, 5])
    c['layout'] = rng.choice(['C', 'C', 'C', 'strided', 'F', 'nd', 'ro'])
    c['shapein'] = rng.random() < 0.5
    c['fold'] = [rng.choice([1, 1, 2, 3]) for _ in range(2)]
    c['dseed'] = rng.getrandbits(31)
    c['sseed'] = rng.getrandbits(31)
    ops = rng.sample(OPS, 3)
    if rng.random() < 0.3:
        ops = sorted(set(ops)) + [rng.choice(OPS)]
    c['ops'] = ops
    return c


def make(c, rng):
    """The data of the matrix and the dense matrix."""
    f = c['fmt']
    row = f[2] == 'r'
    bm, bn = {'': (1, 1), 'b': tuple(c['block']), '2': (2, 2), '3': (3, 3)}[f[3:]]
    nr, nc, nmax = c['nr'], c['nc'], c['nmax']
    nline, nidx = (nr, nc) if row else (nc, nr)
    dt = {
        '': [('index', c['di']), ('value', c['ds'])],
        'b': [('index', c['di']), ('value', c['ds'], (bm, bn) if row else (bn, bm))],
        '2': [('index', c['di']), ('r11', c['ds']), ('r21', c['ds'])],
        '3': [('index', c['di']), ('r11', c['ds']), ('r22', c['ds']), ('r32', c['ds'])],
    }[f[3:]]
    data = np.zeros((nline, nmax), dt)
    if nidx == 0:
        idx = np.full((nline, nmax), -1)
        if c['di'][0] == 'u':
            data = data[:, :0]
            idx = idx[:, :0]
            nmax = 0
    else:
        if c['index'] == 'same':
            idx = np.full((nline, nmax), rng.integers(nidx))
        elif c['index'] == 'few':
            idx = rng.integers(min(nidx, 2), size=(nline, nmax))
        elif c['index'] == 'perm':
            idx = (np.arange(nline)[:, None] + np.arange(nmax)) % nidx
        else:
            idx = rng.integers(nidx, size=(nline, nmax))
        if c['di'][0] == 'i':
            idx = np.where(rng.random(idx.shape) < c['neg'], -rng.integers(1, 4, size=idx.shape), idx)
    data['index'] = idx
    for n in data.dtype.names[1:]:
        v = rng.integers(-3, 4, size=data[n].shape)
        if c['ds'][0] == 'c':
            v = v + 1j * rng.integers(-3, 4, size=data[n].shape)
        data[n] = v
    D = np.zeros((nr * bm, nc * bn), complex)
    for i in range(nline):
        for j in range(nmax):
            k = int(idx[i, j])
            if k < 0:
                continue
            e = data[i, j]
            if f[3:] == '':
                B = np.array([[e['value']]])
            elif f[3:] == 'b':
                B = e['value'] if row else e['value'].T
            else:
                if f[3:] == '2':
                    B = np.array([[e['r11'], -e['r21']], [e['r21'], e['r11']]])
                else:
                    B = np.array([[e['r11'], 0, 0], [0, e['r22'], -e['r32']], [0, e['r32'], e['r22']]])
                B = B if row else B.T
            a, b = (i, k) if row else (k, i)
            D[a * bm:(a + 1) * bm, b * bn:(b + 1) * bn] += B
    lay = c['layout']
    if lay == 'strided':
        big = np.zeros((2 * nline, nmax), dt)
        big['index'] = 10**6 if c['di'] in ('i4', 'i8') else 100
        big[::2] = data
        data = big[::2]
    elif lay == 'F':
        data = np.asfortranarray(data)
    elif lay == 'nd' and nline % 2 == 0 and nline:
        data = data.reshape((2, nline // 2, nmax))
    elif lay == 'ro':
        data.flags.writeable = False
    return data, D, (bm, bn), nmax


def run(c, ns):
    info = Info()
    import pyoperators as po
    from pysimulators import sparse as S

    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    data, D, (bm, bn), nmax = make(c, rng)
    f = c['fmt']
    scalar = f[3:] == ''
    row = f[2] == 'r'
    cls = {
        'fsc': S.FSCMatrix, 'fsr': S.FSRMatrix, 'fscb': S.FSCBlockMatrix, 'fsrb': S.FSRBlockMatrix,
        'fsc2': S.FSCRotation2dMatrix, 'fsr2': S.FSRRotation2dMatrix,
        'fsc3': S.FSCRotation3dMatrix, 'fsr3': S.FSRRotation3dMatrix,
    }[f]
    shape = D.shape
    M = cls(shape, data=data)
    snapshot = data.tobytes()
    extra = c['extra'] if scalar else 0
    if 0 in shape and extra == 0:
        extra = 0
    sched = ompcheck.Sched(c, ns, info)
    dv = np.dtype(c['dv'])
    cplx = c['ds'][0] == 'c'

    def vector(n, dt=dv, ex=extra):
        lo, hi = (0, 2) if dt.kind in 'bu' else (-4, 5)
        x = rng.integers(lo, hi, size=n if not ex else (n, ex))
        if dt.kind == 'c':
            x = x + 1j * rng.integers(-4, 5, size=x.shape)
        return x.astype(dt)

    def real(a):
        return a if np.iscomplexobj(a) and a.imag.any() else a.real

    keywords, known = {}, scalar and c['shapein']
    n1 = (shape[1],) if bn == 1 else (shape[1] // bn, bn)
    n0 = (shape[0],) if bm == 1 else (shape[0] // bm, bm)
    if scalar:
        # rows or columns with several dimensions
        fold = [k if n and k > 1 and n % k == 0 else 0 for k, n in zip(c.get('fold', [1, 1]), (shape[1], shape[0]))]
        if fold[0]:
            n1 = fold[0], shape[1] // fold[0]
        if fold[1]:
            n0 = fold[1], shape[0] // fold[1]
        if not c['shapein']:
            keywords = {k: v for k, v, on in zip(('broadcastable_shapein', 'broadcastable_shapeout'), (n1, n0), fold) if on}
        info.probes['several_dimensions'] += any(fold)
    if scalar and c['shapein']:
        keywords = {'shapein': n1 + ((extra,) if extra else ()), 'shapeout': n0 + ((extra,) if extra else ())}

    def op():
        return po.SparseOperator(M, **keywords)

    def fin(x):
        return x.reshape(n1 + ((extra,) if extra else ()))

    def fout(x):
        return x.reshape(n0 + ((extra,) if extra else ()))

    def prod(A, x):
        if A.size == 0:
            return np.zeros((A.shape[0], max(extra, 1)))
        return real(A @ x.reshape(A.shape[1], -1))

    def dtype_of(a, x, what):
        e = np.result_type(M.dtype, x.dtype)
        if a.dtype != e:
            raise Violation('dtype', f'{what}: {a.dtype} instead of {e}')
        return a

    todo = list(c['ops'])
    wrong_dir = cplx and not row
    for name in todo:
        info.probes['format_' + f] += 1
        if name == 'mul':
            x = vector(shape[1]).ravel()
            e = real((D @ x.reshape(shape[1], -1)).ravel() if D.size and x.size else np.zeros(shape[0] * max(extra, 1)))
            if D.size == 0:
                if extra > 1:
                    continue
                e = np.zeros(shape[0])
            sched('mul', lambda: dtype_of(M * x, x, 'product'), e)
        elif name == 'rmul':
            y = vector(shape[0], ex=0)
            if y.size == 0 or y.size == 1:
                continue
            sched('rmul', lambda: y * M, real(D.T @ y))
        elif name == 'op':
            if 0 in shape and extra:
                continue
            x = fin(vector(shape[1]))
            P = op()
            sched('op', lambda: P(x.copy()), fout(prod(D, x)))
        elif name == 'opT':
            if 0 in shape and extra:
                continue
            y = fout(vector(shape[0]))
            P = op().T
            if cplx:
                continue
            sched('opT', lambda: P(y.copy()), fin(prod(D.T, y)))
        elif name in ('iadd', 'iaddT'):
            if 0 in shape and extra or cplx:
                continue
            P = op() if name == 'iadd' else op().T
            A, a, b = (D, fin, fout) if name == 'iadd' else (D.T, fout, fin)
            x = a(vector(A.shape[1]))
            dt = np.result_type(M.dtype, dv)
            if dt.kind == 'f' and dt.itemsize in (4, 8) and rng.random() < 0.3:
                dt = np.dtype(rng.choice(['f4', 'f8', '>f8', '>f4']))
            o = b(vector(A.shape[0], dt))

            def f_iadd():
                out = o.copy()
                P.direct(x, out, operation=operator.iadd)
                return out

            sched(name, f_iadd, o + b(prod(A, x)))
        elif name == 'out':
            if 0 in shape and extra or cplx:
                continue
            P = op()
            x = fin(vector(shape[1]))
            dt = np.result_type(M.dtype, dv)
            e = fout(prod(D, x))
            kind = int(rng.integers(3))

            def f_out():
                if kind == 0:
                    out = np.empty(e.shape, dt)
                elif kind == 1:
                    out = np.empty(e.shape[:-1] + (2 * e.shape[-1],), dt)[..., ::2]
                else:
                    out = np.empty(e.shape, dt, order='F')
                P(x, out)
                return out

            sched('out', f_out, e)
        elif name == 'sum':
            if 0 in shape and extra or cplx:
                continue
            d2 = data.copy()
            for n in d2.dtype.names[1:]:
                d2[n] = rng.integers(-3, 4, size=d2[n].shape)
            D2 = dense_of(c, d2, shape, bm, bn)
            Q = po.SparseOperator(cls(shape, data=d2), **keywords)
            x = fin(vector(shape[1]))
            P = op() + Q
            sched('sum', lambda: P(x.copy()), fout(prod(D + D2, x)))
        elif name in ('ptp', 'pdp'):
            if 0 in shape or cplx or c['ds'] == 'f2' or dv.itemsize == 2 or (f == 'fsrb' and False):
                continue
            P = op()
            x = fin(vector(shape[1]))
            if name == 'ptp':
                e = D.T @ (D @ x.reshape(shape[1], -1))

                def f_ptp():
                    return (P.T * P)(x.copy())

            else:
                d = rng.integers(-2, 3, size=n0).astype(M.dtype if M.dtype.kind == 'f' else float)
                if extra:
                    d = np.repeat(d[..., None], extra, axis=-1)
                W = po.DiagonalOperator(d)
                e = D.T @ (d.reshape(shape[0], -1) * (D @ x.reshape(shape[1], -1)))

                def f_ptp():
                    return (P.T * W * P)(x.copy())

            if not scalar or known or not extra:
                sched(name, f_ptp, fin(real(e)))
        elif name == 'scale':
            x = vector(shape[1], ex=0)
            if 0 in shape or (f[3:] in '23' and False):
                continue
            s = 3 if rng.random() < 0.5 else 2.0
            side = rng.random() < 0.5
            if M.dtype.kind == 'i' and isinstance(s, float):
                s = 2
            if M.dtype == 'f2':
                s = 2
            sched('scale', lambda: ((s * M) if side else (M * s)) * x, real(s * (D @ x)))
        elif name == 'dense':
            if 0 in shape or shape[0] * shape[1] * max(extra, 1) > 700:
                continue
            P = op()
            E = real(D)
            if extra and known:
                E = np.kron(E, np.eye(extra))
                sched('dense', lambda: P.todense(), E)
            else:
                sched('dense', lambda: P.todense(shapein=n1), E)
        elif name == 'restrict':
            if not row or 0 in shape or cplx or extra == 1 and known or c['di'][0] == 'u':
                continue
            P = op()
            m = rng.random(shape[1] // bn) < rng.choice([0.2, 0.5, 0.9, 1.0])
            if scalar:
                bshape = P.broadcastable_shapein
                m = m.reshape(bshape)
            if not m.any():
                m.ravel()[0] = True
            keep = np.repeat(m.ravel(), bn)
            E = D[:, keep]
            x = vector(int(keep.sum()))
            x_ = x if scalar else x.reshape((-1, bn) if bn > 1 else -1)
            inplace = bool(rng.random() < 0.4) and c['layout'] != 'ro'

            def f_restrict():
                if inplace:
                    dd = recopy(data)
                    R = po.SparseOperator(cls(shape, data=dd), **keywords).restrict(m, inplace=True)
                else:
                    R = P.restrict(m)
                return R(x_.copy()), R.T(np.ones(R.shapeout if R.shapeout is not None else fout(vector(shape[0])).shape))

            one = np.ones(fout(vector(shape[0])).shape)
            sched('restrict', f_restrict, (
                fout(prod(E, x)),
                real(E.T @ one.reshape(shape[0], -1)).reshape(x_.shape),
            ))
        elif name == 'corestrict':
            if f not in ('fsr', 'fsr2', 'fsr3') or 0 in shape or cplx or extra == 1 and known:
                continue
            P = op()
            m = rng.random(shape[0] // bm) < rng.choice([0.2, 0.5, 0.9, 1.0])
            if not m.any():
                m[0] = True
            keep = np.repeat(m, bm)
            m = m.reshape(data.shape[:-1])
            E = D[keep]
            x = fin(vector(shape[1]))

            def f_corestrict():
                R = P.corestrict(m)
                return R(x.copy()), R.T(y.copy())

            e = prod(E, x)
            e = e.reshape((-1, bm)) if bm > 1 else e.reshape((len(E), extra) if extra else -1)
            y = vector(len(E)).reshape(e.shape)
            sched('corestrict', f_corestrict, (e, fin(prod(E.T, y))))
        elif name == 'copy':
            if 0 in shape:
                continue
            x = vector(shape[1], ex=0)

            def f_copy():
                M2 = M.copy()
                out = M2 * x
                M2.data.index = 0
                return out

            sched('copy', f_copy, real(D @ x))
        elif name == 'refuse':
            refuse(c, po, S, cls, M, data, shape, bm, bn, nmax, rng, sched, keywords)
    if data.tobytes() != snapshot:
        raise Violation('matrix-altered', f'the matrix is altered by {todo}')
    info.nontrivial = info.stats['steps'] > 0
    info.probes['index_' + c['di']] += 1
    info.probes['value_' + c['ds']] += 1
    info.probes['vector_' + c['dv']] += 1
    info.probes['empty'] += 0 in shape
    return info


def refuse(c, po, S, cls, M, data, shape, bm, bn, nmax, rng, sched, keywords):
    """What is not a matrix, an operand or a mask is refused, not silently misread."""
    f = c['fmt']
    row, scalar, block = f[2] == 'r', f[3:] == '', f[3:] == 'b'
    lines = (bm, 0) if row else (0, bn)
    longer = shape[0] + lines[0], shape[1] + lines[1]
    key = 'ncolmax' if row else 'nrowmax'
    other = S.FSRMatrix if f != 'fsr' else S.FSCMatrix
    size = [(1, 1), (4, 4), (2, 4), (5, 1), (0, 2), (2,), (1, 2, 3)][int(rng.integers(7))]
    calls = {
        'shape': lambda: cls(shape[0], data=data),
        'ndim': lambda: cls(shape + (1,), data=data),
        'nmax_missing': lambda: cls(shape, **({'block_shape': (bm, bn)} if block else {})),
        'longer': lambda: cls(longer, data=data),
        'nmax': lambda: cls(shape, data=data, **{key: nmax + 1}),
        'extra_field': lambda: cls(shape, data=np.zeros(data.shape, data.dtype.descr + [('extra', float)])),
        'input': lambda: po.SparseOperator(M, **keywords)(np.zeros(shape[1] * max(c['extra'], 1) + 1)),
        'output': lambda: po.SparseOperator(M, **keywords).T(np.zeros(shape[0] * max(c['extra'], 1) + 1)),
        'operand': lambda: M * np.zeros(shape[1] * 2 + 1),
        'operation': lambda: po.SparseOperator(M, shapein=(shape[1],) if scalar else None).direct(
            np.zeros(shape[1]), np.zeros(shape[0]), operation=operator.imul),
    }
    if not scalar:
        misfit = shape[0] + (bm > 1), shape[1] + (bm == 1)
        calls['misfit'] = lambda: cls(misfit, data=data)
    if not block:
        calls['no_index'] = lambda: cls(shape, data=np.zeros(data.shape, [('value', float)]))
        calls['no_value'] = lambda: cls(shape, data=np.zeros(data.shape, [('index', int)]))
        if 0 not in shape:
            calls['scalar_data'] = lambda: cls(shape, data=np.zeros(data.shape, [('index', int), ('other', float)]))
    else:
        calls['block'] = lambda: cls((20, 20), size, 1)
        calls['no_block'] = lambda: cls((20, 20), None, 1)
    if 0 not in shape:
        P = lambda: po.SparseOperator(M, **keywords)  # noqa: E731
        if f not in ('fsr', 'fsr2', 'fsr3'):
            calls['corestrict'] = lambda: P().corestrict(np.ones(data.shape[:-1], bool))
        if not row:
            calls['restrict'] = lambda: P().restrict(np.ones(data.shape[:-1], bool))
        else:
            n = shape[1] // bn
            calls['mask_shape'] = lambda n=n: P().restrict(np.ones(n + 1, bool))
            calls['mask_type'] = lambda n=n: P().restrict(np.ones(n, [np.int8, float][n % 2]))
    if scalar and 'shapein' not in keywords and 'broadcastable_shapein' not in keywords:
        calls['dense'] = lambda: po.SparseOperator(M).todense()
    # every size of operand is a multiple of a single column or row
    if scalar and shape[1] <= 1:
        calls.pop('operand')
    for k, n in (('input', shape[1]), ('output', shape[0])):
        if scalar and (n <= 1 or n * max(c['extra'], 1) % n == 0 and n == 1):
            calls.pop(k)
    if 0 in shape:
        for k in ('input', 'output', 'operation', 'operand'):
            calls.pop(k, None)
    k = sorted(calls)[int(rng.integers(len(calls)))]

    def f_refuse():
        try:
            calls[k]()
        except (TypeError, ValueError, NotImplementedError) as e:
            return type(e).__name__
        return 'accepted'

    sched('refuse', f_refuse, lambda r: f'{k} is accepted ({cls.__name__}, {shape})' if r == 'accepted' else None,
          serial_only=True)


def recopy(data):
    """A writable copy with the same memory layout."""
    if data.ndim == 2 and data.strides[0] == 2 * data.shape[1] * data.itemsize and data.shape[0] > 1:
        big = np.zeros((2 * data.shape[0], data.shape[1]), data.dtype)
        big[::2] = data
        return big[::2]
    return data.copy(order='K')


def dense_of(c, data, shape, bm, bn):
    f = c['fmt']
    row = f[2] == 'r'
    D = np.zeros(shape, complex)
    if data.size == 0:
        return D
    d = data.reshape((-1, data.shape[-1]))
    for i in range(d.shape[0]):
        for e in d[i]:
            k = int(e['index'])
            if k < 0:
                continue
            if f[3:] == '':
                B = np.array([[e['value']]])
            elif f[3:] == 'b':
                B = e['value'] if row else e['value'].T
            else:
                if f[3:] == '2':
                    B = np.array([[e['r11'], -e['r21']], [e['r21'], e['r11']]])
                else:
                    B = np.array([[e['r11'], 0, 0], [0, e['r22'], -e['r32']], [0, e['r32'], e['r22']]])
                B = B if row else B.T
            a, b = (i, k) if row else (k, i)
            D[a * bm:(a + 1) * bm, b * bn:(b + 1) * bn] += B
    return D


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if len(c['ops']) > 1 and 'plan' not in c:
        for o in c['ops']:
            yield dict(c, ops=[o])
    if 'plan' not in c:
        yield from ompcheck.shrink_keys(c, {
            'layout': ['C'], 'dv': ['f8', c['ds']], 'ds': ['f8', 'f4'], 'di': ['i4', 'i8'], 'extra': [0, 2], 'neg': [0.0],
            'nmax': [1, 2], 'nr': [1, 2, 4, 9], 'nc': [1, 2, 4, 9], 'index': ['any'], 'shapein': [False], 'T': [2],
        })


pin = ompcheck.pin(sys.modules[__name__])
