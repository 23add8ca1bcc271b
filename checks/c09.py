"""C09: pointing matrices, kept in memory or recomputed on the fly."""

import operator
import sys
import weakref

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C09'
RULE = (
    'A case is either a pointing matrix kept in memory (shape, pixels per sample, map shape, distribution of the '
    'indices, unused and zero elements, memory layout, dtype and layout of the vectors) with operations (projection, '
    'transpose, accumulation, back-projection with and without mask, mask, P.T P, intersection, packing, masking, '
    'products by a diagonal, units and attributes of the outputs, what must be refused), or a group of on-the-fly operators which share a place holder, with a history of uses of '
    'its members and of block columns of them, in which computations of the matrix fail. Each is run on one thread over '
    'two contents of the uninitialised memory, then under seeded schedules of 2-8 threads. Values are integers, so '
    'that results are exact. Non-trivial: a region ran on several threads or a computation failed. Distinct: by the '
    'interleavings taken.'
)
REAL = ['pysimulators.operators (PointingMatrix, Projection*Operator)', 'src/flib/pointingmatrix_old.f90',
        'src/flib/module_pointingmatrix.f90', 'pyoperators', 'numpy']
STUB = ['the OpenMP runtime (SimOMP)', 'the allocators of numpy and of the kernels (contents of fresh memory)',
        'the function which computes the pointing matrix (returns a generated matrix or raises)']
BUDGET = {'quick': (9000, 40), 'thorough': (400000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

OPS = ['op', 'opT', 'iaddT', 'out', 'outT', 'mask', 'pTp', 'pTx', 'intersects', 'valid', 'pack', 'apply_mask', 'dp',
       'ptp', 'ptp', 'pdp', 'attrs', 'made', 'refuse']
FLY = ['op', 'opT', 'op', 'opT', 'mask', 'pTx', 'col', 'colT', 'ptp', 'pTp']


class Fault(Exception):
    pass


def generate(rng, tier):
    c = {'kind': rng.choice(['mem', 'mem', 'fly']), 'T': rng.choice([2, 3, 4, 4, 8]), 'K': 3 if tier == 'quick' else 5}
    c['ndet'] = rng.choice([1, 2, 3, 5])
    c['ns'] = rng.choice([1, 2, 4, 9, 16])
    if rng.random() < 0.03:
        c['ns'] = 0
    c['npps'] = rng.choice([1, 1, 2, 3, 5]) if rng.random() > 0.03 else 0
    c['nd'] = rng.choice([2, 2, 1])
    c['map'] = rng.choice([[1], [4], [12], [2, 3], [1, 4], [4, 5], [2, 2, 3]])
    c['index'] = rng.choice(['same', 'few', 'any', 'any'])
    c['unused'] = rng.choice([0.0, 0.2, 0.6, 1.0])
    c['zero'] = rng.choice([0.0, 0.2])
    c['layout'] = rng.choice(['C', 'C', 'strided', 'F'])
    c['dv'] = rng.choice(['f8', 'f8', 'f8', 'f4', 'i4', 'i8', 'b1', '>f8', 'f2'])
    c['xlayout'] = rng.choice(['C', 'C', 'F', 'strided'])
    c['dseed'] = rng.getrandbits(31)
    c['sseed'] = rng.getrandbits(31)
    if c['kind'] == 'mem':
        c['ops'] = rng.sample(OPS, 4)
    else:
        c['nfly'] = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([2, 4, 6, 10])
        pf = rng.choice([0.0, 0.2, 0.5])
        c['ops'] = [
            [rng.choice(FLY), rng.randrange(c['nfly']), rng.randrange(1, 4) if rng.random() < pf else 0]
            for _ in range(n)
        ]
        c['ids'] = rng.choice(['int', 'str', 'tuple', 'equal', 'none'])
    return c


def make(c, rng, PM):
    shape = ((c['ndet'],) if c['nd'] == 2 else ()) + (c['ns'], c['npps'])
    npix = int(np.prod(c['map']))
    n = int(np.prod(shape[:-1]))
    k = c['npps']
    if c['index'] == 'same':
        idx = np.full((n, k), rng.integers(npix))
    elif c['index'] == 'few':
        idx = rng.integers(min(npix, 2), size=(n, k))
    else:
        idx = rng.integers(npix, size=(n, k))
    val = rng.integers(1, 4, size=(n, k)) * np.where(rng.random((n, k)) < 0.2, -1, 1)
    val[rng.random((n, k)) < c['zero']] = 0
    for i in range(n):
        if k and rng.random() < c['unused']:
            j = int(rng.integers(k))
            idx[i, j:] = -1
            if rng.random() < 0.5:
                val[i, j:] = 0
    lay = c['layout']
    full = shape[:-2] + (2 * shape[-2] if lay == 'strided' else shape[-2],) + shape[-1:]
    m = PM.empty(full[::-1] if lay == 'F' else full, tuple(c['map']), verbose=False)
    m['index'] = 10**6
    m['value'] = 77
    if lay == 'F':
        m = m.T
    if lay == 'strided':
        m = m[..., ::2, :]
    m['index'] = idx.reshape(shape)
    m['value'] = val.reshape(shape)
    return m, idx, val


def dense(idx, val, npix):
    A = np.zeros((len(idx), npix))
    for i in range(len(idx)):
        for k, v in zip(idx[i], val[i]):
            if k == -1:
                break
            A[i, k] += v
    return A


def laid(x, how):
    """The same array with another memory layout."""
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'strided' and x.ndim:
        y = np.empty(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        y[...] = 1
        y[..., ::2] = x
        return y[..., ::2]
    return x.copy()


def run(c, ns):
    info = Info()
    return (run_mem if c['kind'] == 'mem' else run_fly)(c, ns, info)


def run_mem(c, ns, info):
    import pyoperators as po
    import pysimulators as ps
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator

    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    m0, idx, val = make(c, rng, PointingMatrix)
    npix = int(np.prod(c['map']))
    A = dense(idx, val, npix)
    sin, sout = tuple(c['map']), m0.shape[:-1]
    snapshot = np.ascontiguousarray(m0).tobytes()
    sched = ompcheck.Sched(c, ns, info)
    dv = np.dtype(c['dv'])
    if m0.shape[-1] == 0:
        A[...] = 0

    def vector(shape, dt=dv):
        lo, hi = (0, 2) if dt.kind in 'bu' else (-4, 5)
        return laid(rng.integers(lo, hi, size=shape).astype(dt), c['xlayout'])

    def fresh():
        """A copy of the matrix with the same layout."""
        m, _, _ = make(dict(c), np.random.Generator(np.random.PCG64(c['dseed'])), PointingMatrix)
        return m

    P = ProjectionInMemoryOperator(m0)
    flat = lambda x: np.asarray(x).ravel().astype(float)  # noqa: E731
    for name in c['ops']:
        if name == 'op':
            x = vector(sin)
            sched('op', lambda: P(x), (A @ flat(x)).reshape(sout))
        elif name == 'opT':
            y = vector(sout)
            sched('opT', lambda: P.T(y), (A.T @ flat(y)).reshape(sin))
        elif name == 'iaddT':
            y = vector(sout, np.dtype(float))
            o = vector(sin, np.dtype(float)).copy()

            def f_iadd():
                out = o.copy()
                P.transpose(y, out, operation=operator.iadd)
                return out

            sched('iaddT', f_iadd, o + (A.T @ flat(y)).reshape(sin))
        elif name in ('out', 'outT'):
            s = sout if name == 'out' else sin
            x = vector(sin if name == 'out' else sout)
            e = (A @ flat(x)).reshape(s) if name == 'out' else (A.T @ flat(x)).reshape(s)
            how = ['C', 'F', 'strided', 'T'][int(rng.integers(4))]
            Q = P if name == 'out' else P.T

            def f_out():
                if how == 'T':
                    out = np.empty(tuple(2 * i for i in s[::-1]))[tuple(slice(None, None, 2) for i in s)].T
                else:
                    out = laid(np.empty(s), how)
                out[...] = 99
                Q(x, out)
                return out

            sched(name, f_out, e)
        elif name == 'mask':
            e = np.ones(npix, bool)
            for i in range(len(idx)):
                for k, v in zip(idx[i], val[i]):
                    if k == -1:
                        break
                    if v != 0:
                        e[k] = False
            o = rng.random(npix) < 0.5
            with_out = rng.random() < 0.4

            def f_mask():
                if with_out:
                    out = o.copy().reshape(sin)
                    r = P.get_mask(out=out)
                    return out if r is out else None
                return m0.get_mask()

            sched('mask', f_mask, ((e & o) if with_out else e).reshape(sin))
        elif name == 'pTp':
            sched('pTp', lambda: P.get_pTp(), A.T @ A)
        elif name == 'pTx':
            x = vector(sout)
            mask = rng.random(sout) < 0.4
            how = int(rng.integers(4))
            keep = ~mask.ravel() if how else np.ones(mask.size, bool)

            def f_ptx():
                if how == 1:
                    return P.get_pTx_pT1(x, mask=laid(mask, c['xlayout']))
                if how == 2:
                    return P.get_pTx_pT1(ps.Tod(x, mask=mask))
                if how == 3:
                    out = np.zeros(sin), np.zeros(sin)
                    if c['xlayout'] != 'C':
                        out = laid(out[0], c['xlayout']), laid(out[1], c['xlayout'])
                    r = P.get_pTx_pT1(x, out=out, mask=mask.astype(np.uint8))
                    return out if r[0] is out[0] and r[1] is out[1] else None
                return P.get_pTx_pT1(x)

            sched('pTx', f_ptx, ((A[keep].T @ flat(x)[keep]).reshape(sin), (A[keep].sum(axis=0)).reshape(sin)))
        elif name == 'intersects':
            if len(sout) != 2 or m0.size == 0:
                continue
            coords = tuple(int(rng.integers(n)) for n in sin)
            pix = int(np.ravel_multi_index(coords, sin))
            fits = tuple(i + 1 for i in coords[::-1])
            axis = [None, 0, 1, -3, -2][int(rng.integers(5))]
            used = (idx == pix).reshape(m0.shape)
            see = used & (val != 0).reshape(m0.shape)
            ax = {None: (0, 1, 2), 0: (0, 2), -3: (0, 2), 1: (1, 2), -2: (1, 2)}[axis]
            may, must = used.any(axis=ax), see.any(axis=ax)

            def o_inter(r):
                r = np.asarray(r)
                if r.dtype != bool or r.shape != may.shape:
                    return f'{r!r} instead of {may!r}'
                return None if np.all(r >= must) and np.all(r <= may) else f'{r!r} instead of {may!r}'

            sched('intersects', lambda: np.asarray(P.intersects(fits, axis=axis)), o_inter)
        elif name == 'valid':
            bad = int(rng.integers(4))

            def f_valid():
                m = fresh()
                if bad and m.size:
                    m.flat[m.size // 2] = ({1: npix, 2: -2, 3: 2**31 - 1}[bad], 1.0)
                return m.isvalid()

            sched('valid', f_valid, not (bad and m0.size), serial_only=True)
        elif name == 'pack':
            mask = rng.random(npix) < rng.choice([0.0, 0.3, 0.8, 1.0])
            table = np.cumsum(~mask) - 1
            rows = []
            for i in range(len(idx)):
                row = []
                for k, v in zip(idx[i], val[i]):
                    if k == -1:
                        break
                    if v != 0 and not mask[k]:
                        row.append((int(table[k]), float(v)))
                rows.append(row)
            npk = int((~mask).sum())
            x = vector(npk, np.dtype(float))
            E = np.zeros((len(rows), npk))
            for i, row in enumerate(rows):
                for k, v in row:
                    E[i, k] += v

            def f_pack():
                m = fresh()
                m.pack(laid(mask.reshape(sin), 'C'))
                return np.array(m.index), np.array(m.value), ProjectionInMemoryOperator(m)(x) if npk else None, m

            def o_pack(r):
                index, value = r[0].reshape((-1, c['npps'])), r[1].reshape((-1, c['npps']))
                for i, row in enumerate(rows):
                    n = len(row)
                    got = [(int(a), float(b)) for a, b in zip(index[i, :n], value[i, :n])]
                    if got != row or np.any(index[i, n:] != -1):
                        return f'row {i}: {index[i]}, {value[i]} instead of {row}'
                if m0.size and (r[3] != (npk,)):
                    return f'packed shape {r[3]} instead of {(npk,)}'
                if npk and m0.size:
                    return ompcheck.same(r[2], (E @ flat(x)).reshape(sout))

            def f2_pack():
                a, b, p, m = f_pack() if m0.size else (m0.index, m0.value, None, m0)
                return a, b, p, m.shape_input

            if m0.size and c['npps']:
                sched('pack', f2_pack, o_pack)
        elif name == 'apply_mask':
            mask = rng.random(sout) < 0.4
            x = vector(sin)

            def f_am():
                m = fresh()
                Q = ProjectionInMemoryOperator(m)
                Q.apply_mask(mask)
                return Q(x)

            sched('apply_mask', f_am, np.where(mask.ravel(), 0, A @ flat(x)).reshape(sout))
        elif name == 'dp':
            kind = int(rng.integers(4))
            if kind == 0:
                d = rng.integers(-2, 3, size=sout).astype(float)
                W = po.DiagonalOperator(d)
            elif kind == 1:
                d = rng.integers(-2, 3, size=sout[-1:]).astype(float)
                W = po.DiagonalOperator(d, broadcast='leftward')
            elif kind == 2:
                d = rng.integers(-2, 3, size=sout[:1]).astype(float)
                W = po.DiagonalOperator(d, broadcast='rightward')
                d = d.reshape(d.shape + (1,) * (len(sout) - 1))
            else:
                d = np.asarray(3.0)
                W = po.HomothetyOperator(3.0)
            if d.size <= 1 and kind < 3:
                continue
            x = vector(sin)
            sched('dp', lambda: (W * P)(x), d * (A @ flat(x)).reshape(sout))
        elif name in ('ptp', 'pdp'):
            x = vector(sin)
            if name == 'ptp':
                sched('ptp', lambda: (P.T * P)(x), (A.T @ (A @ flat(x))).reshape(sin))
            else:
                d = rng.integers(-2, 3, size=sout).astype(float)
                if d.size <= 1:
                    continue
                W = po.DiagonalOperator(d)
                sched('pdp', lambda: (P.T * W * P)(x), (A.T @ (d.ravel() * (A @ flat(x)))).reshape(sin))
        elif name == 'attrs':
            attributes(ps, po, c, rng, sched, info, A, sin, sout, fresh)
        elif name == 'made':
            kind = ['zeros', 'ones', 'empty'][int(rng.integers(3))]

            def f_made():
                m = getattr(PointingMatrix, kind)(m0.shape, sin, verbose=False)
                if kind == 'empty':
                    m['index'], m['value'] = -1, 5
                return type(m), m.dtype, m.shape, m.shape_input, m.header, m.isvalid(), np.array(m.index), np.array(m.value)

            def o_made(r):
                if r[0] is not PointingMatrix or r[1] != PointingMatrix.default_dtype or r[2:4] != (m0.shape, sin):
                    return f'{kind}: {r[:4]}'
                if [r[4]['NAXIS%d' % (i + 1)] for i in range(len(m0.shape))] != list(m0.shape[::-1]):
                    return f'{kind}: header {dict(r[4])}'
                if not r[5] or np.any(r[6] != -1) or np.any(r[7] != {'zeros': 0, 'ones': 1, 'empty': 5}[kind]):
                    return f'{kind}: {r[5:]}'

            sched('made', f_made, o_made, serial_only=True)
        elif name == 'refuse':
            k = int(rng.integers(8))
            bad = tuple(i + 1 for i in sin)
            if k == 5 and (len(sout) != 2 or m0.size == 0):
                continue

            def f_refuse():
                try:
                    if k == 0:
                        P.get_mask(out=np.ones(sin, [np.int8, float, np.uint8][npix % 3]))
                    elif k == 1:
                        P.get_mask(out=np.ones(bad, bool))
                    elif k == 2:
                        P.get_pTp(out=np.zeros((npix, npix), 'f4'))
                    elif k == 3:
                        P.get_pTp(out=np.zeros((npix, npix + 1)))
                    elif k == 4:
                        ProjectionInMemoryOperator(m0, **{['shapein', 'shapeout'][npix % 2]: sin})
                    elif k == 5:
                        P.intersects(tuple(1 for _ in sin), axis=[2, -1, 3, -4][npix % 4])
                    elif k == 6:
                        P.apply_mask(np.zeros(sout + (1,), bool))
                    else:
                        P.transpose(np.ones(sout), np.zeros(sin), operation=operator.imul)
                except (TypeError, ValueError) as e:
                    return type(e).__name__
                return 'accepted'

            sched('refuse', f_refuse, lambda r: None if r in ('TypeError', 'ValueError') else f'refusal {k}: {r}',
                  serial_only=True)
    if np.ascontiguousarray(m0).tobytes() != snapshot:
        raise Violation('matrix-altered', f'the matrix is altered by {c["ops"]}')
    info.nontrivial = info.stats['steps'] > 0
    info.probes['layout_' + c['layout']] += 1
    info.probes['pixels_per_sample_%d' % c['npps']] += 1
    return info


def attributes(ps, po, c, rng, sched, info, A, sin, sout, fresh):
    """What the outputs carry: class, unit, derived units, header and attributes."""
    from pysimulators import ProjectionInMemoryOperator, ProjectionOnFlyOperator, Quantity

    table = {'': {}, 'K': {'K': 1}, 'pixel': {'pixel': 1}, 'Jy/sr': {'Jy': 1, 'sr': -1}, 'V/K': {'V': 1, 'K': -1},
             'detector': {'detector': 1}}
    pick = lambda: list(table)[int(rng.integers(len(table)))]  # noqa: E731
    uo, ui, ux, fwd = pick(), pick(), pick(), bool(rng.random() < 0.5)
    kw = {}
    if rng.random() < 0.8:
        kw['units'] = (uo, ui)
    else:
        uo = ui = ''
    if rng.random() < 0.5:
        kw['derived_units'] = ({'detector': Quantity(3.0, 'm^2')}, {'pixel': Quantity(2.0, 'sr')})
    if rng.random() < 0.5:
        kw['attrout'], kw['attrin'] = {'bolometers': 5}, {'pixels': 7}
    if rng.random() < 0.5:
        kw['classin'], kw['classout'] = ps.Map, ps.Tod
    K = [np.ndarray, Quantity, ps.FitsArray, ps.Map, ps.Tod][int(rng.integers(5))]
    x = rng.integers(-4, 5, size=sin if fwd else sout).astype(float)
    d = rng.integers(1, 4, size=sout).astype(float)
    way = ['plain', 'scaled', 'diagonal', 'twice'][int(rng.integers(4))]
    fly = bool(rng.random() < 0.3)
    e = A @ x.ravel() if fwd else A.T @ ((d.ravel() if way == 'diagonal' else 1) * x.ravel())
    if way == 'diagonal' and fwd:
        e = d.ravel() * e
    elif way == 'twice':
        e = A.T @ e if fwd else A @ e
    elif way == 'scaled':
        e = 3 * e
    fin = fwd != (way == 'twice')
    e = e.reshape(sout if fin else sin)
    # no unit at all stays so
    unit = dict(table[ux]) if K is not np.ndarray else {}
    for step in [fwd, not fwd][:2 if way == 'twice' else 1]:
        if unit:
            for u, s in ((uo, 1), (ui, -1)):
                for a, b in table[u].items():
                    unit[a] = unit.get(a, 0) + b * s * (1 if step else -1)
        unit = {a: b for a, b in unit.items() if b}

    def f():
        if fly:
            P = ProjectionOnFlyOperator({}, 'id', lambda i: fresh(), shapein=sin, shapeout=sout, **kw)
        else:
            P = ProjectionInMemoryOperator(fresh(), **kw)
        Q = {'plain': lambda: P, 'scaled': lambda: 3 * P, 'diagonal': lambda: po.DiagonalOperator(d, broadcast='disabled') * P,
             'twice': lambda: P.T * P if fwd else P * P.T}[way]()
        if not fwd and way != 'twice':
            Q = Q.T
        if K is np.ndarray:
            a = x.copy()
        elif K is Quantity:
            a = Quantity(x.copy(), ux)
        else:
            a = K(x.copy(), unit=ux)
            h = a.header
            h['CRVAL1'] = 77.0
            a.header = h
        r = Q(a)
        header = None
        if isinstance(r, ps.FitsArray):
            header = r.header
            header = [header['NAXIS%d' % (i + 1)] for i in range(r.ndim)], header.get('CRVAL1')
        return (np.array(r), type(r), getattr(r, '_unit', None), {k: str(v) for k, v in r.derived_units.items()}
                if hasattr(r, 'derived_units') else None, getattr(r, 'bolometers', None), getattr(r, 'pixels', None), header)

    def check(r):
        z = ompcheck.same(r[0], e)
        if z:
            return z
        cls = {True: ps.Tod, False: ps.Map}[fin] if 'classin' in kw else K
        if cls is not np.ndarray and r[1] is not cls or not issubclass(r[1], cls):
            return f'class {r[1]} instead of {cls}'
        if issubclass(r[1], Quantity):
            if r[2] != unit:
                return f'unit {r[2]} instead of {unit}'
            du = {}
            if 'derived_units' in kw:
                du = {'detector': '3.0 m^2'} if fin else {'pixel': '2.0 sr'}
            if r[3] != du:
                return f'derived units {r[3]} instead of {du}'
        if 'attrin' in kw and r[4 if fin else 5] != (5 if fin else 7):
            return f'attributes {r[4:6]}'
        if r[6] and r[6] != (list(e.shape[::-1]), None):
            return f'header {r[6]} for {e.shape}'

    sched('attrs', f, check, serial_only=True)
    info.probes['attributes_' + way] += 1


def run_fly(c, ns, info):
    import pyoperators as po
    from pysimulators import PointingMatrix, ProjectionOnFlyOperator

    n = c['nfly']
    npix = int(np.prod(c['map']))
    sin = tuple(c['map'])
    rngs = [np.random.Generator(np.random.PCG64([c['dseed'], i])) for i in range(n + 1)]
    made = [make(c, rngs[i], PointingMatrix) for i in range(n)]
    sout = made[0][0].shape[:-1]
    A = [dense(i, v, npix) if c['npps'] else np.zeros((int(np.prod(sout)), npix)) for _, i, v in made]
    rng = rngs[n]
    ids = {
        'int': lambda i: i + 1000, 'str': lambda i: f'pointing {i}', 'tuple': lambda i: (i, 'x'),
        'equal': lambda i: (1, [2.0, 2, np.int64(2), True + 1][i % 4], i), 'none': lambda i: None if i == 0 else i,
    }[c['ids']]
    ids = [ids(i) for i in range(n)]
    sched = ompcheck.Sched(c, ns, info)
    steps = []
    for what, k, fault in c['ops']:
        x = rng.integers(-4, 5, size=sin).astype(float)
        y = rng.integers(-4, 5, size=sout).astype(float)
        ycol = rng.integers(-4, 5, size=(n,) + sout).astype(float)
        B = A[k]
        if what == 'op':
            e = (B @ x.ravel()).reshape(sout)
        elif what == 'opT':
            e = (B.T @ y.ravel()).reshape(sin)
        elif what == 'ptp':
            e = (B.T @ (B @ x.ravel())).reshape(sin)
        elif what == 'pTp':
            e = B.T @ B
        elif what == 'pTx':
            e = (B.T @ y.ravel()).reshape(sin), B.sum(axis=0).reshape(sin)
        elif what == 'mask':
            e = np.ones(npix, bool)
            for r, v in zip(made[k][1], made[k][2]):
                for a, b in zip(r, v):
                    if a == -1:
                        break
                    if b != 0:
                        e[a] = False
            e = e.reshape(sin)
        elif what == 'col':
            e = np.array([(b @ x.ravel()).reshape(sout) for b in A])
        else:
            e = sum((b.T @ z.ravel()).reshape(sin) for b, z in zip(A, ycol))
        steps.append((what, k, fault, x, y, ycol, e))
    stat = {}

    def history():
        state = {'calls': 0, 'fault': 0, 'raised': False}
        alive = []
        stat.update(calls=0, faults=0)

        def func(id):
            stat['calls'] += 1
            state['calls'] += 1
            if any(r() is not None for r in alive):
                raise Violation('two-matrices', 'a pointing matrix is computed while another one of the group is kept')
            if state['calls'] == state['fault']:
                state['raised'] = True
                stat['faults'] += 1
                raise Fault
            i = next(i for i in range(n) if ids[i] is id)
            m = make(c, np.random.Generator(np.random.PCG64([c['dseed'], i])), PointingMatrix)[0]
            alive[:] = [weakref.ref(m)]
            return m

        holder = {}
        ops = [ProjectionOnFlyOperator(holder, id, func, shapein=sin, shapeout=sout) for id in ids]
        col = po.BlockColumnOperator(ops, new_axisout=0) if n > 1 else None
        out = []
        for s, (what, k, fault, x, y, ycol, e) in enumerate(steps):
            state.update(calls=0, fault=fault, raised=False)
            P = ops[k]
            try:
                if what == 'op':
                    r = P(x.copy())
                elif what == 'opT':
                    r = P.T(y.copy())
                elif what == 'ptp':
                    r = (P.T * P)(x.copy())
                elif what == 'pTp':
                    r = P.get_pTp()
                elif what == 'pTx':
                    r = P.get_pTx_pT1(y.copy())
                elif what == 'mask':
                    r = P.get_mask()
                elif col is None:
                    continue
                elif what == 'col':
                    r = col(x.copy())
                else:
                    r = col.T(ycol.copy())
            except Fault:
                r = 'raised'
            if state['raised'] != (isinstance(r, str) and r == 'raised'):
                raise Violation('error-lost', f'step {s} ({what}): the computation of the matrix failed, '
                                'but the operation did not' if state['raised'] else f'step {s} raised')
            if not state['raised']:
                d = ompcheck.same(r, e)
                if d:
                    raise Violation('wrong:fly', f'step {s} ({what} of operator {k}) after {c["ops"][:s]}: {d}')
                out.append(r)
        return tuple(z for r in out for z in (r if isinstance(r, tuple) else (r,)))

    sched('fly', history)
    info.faults['pointing_computation_error'] += stat['faults']
    info.stats['pointing_computations'] += stat['calls']
    info.nontrivial = info.stats['steps'] > 0 or stat['faults'] > 0
    info.probes['ids_' + c['ids']] += 1
    info.key(str(c['ops']))
    return info


pin = ompcheck.pin(sys.modules[__name__])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    ops = c['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(c, ops=ops[:i] + ops[i + 1:])
    if c['kind'] == 'fly':
        for i, o in enumerate(ops):
            if o[2]:
                yield dict(c, ops=ops[:i] + [[o[0], o[1], 0]] + ops[i + 1:])
    yield from ompcheck.shrink_keys(c, {
        'layout': ['C'], 'xlayout': ['C'], 'dv': ['f8'], 'ndet': [1, 2], 'nd': [1], 'ns': [1, 2, 4], 'npps': [1, 2],
        'map': [[1], [4]], 'unused': [0.0], 'zero': [0.0], 'index': ['same'], 'T': [2], 'nfly': [1, 2], 'ids': ['int'],
    })
