"""C08: projection operators: kernel, coverage, back-projection and polygon integration."""

import math
import operator
import sys
from fractions import Fraction

import numpy as np

from sim import ompcheck
from sim.core import Info, Violation

PROPERTY = 'C08'
RULE = (
    'A case is a projection operator (scalar, block, 2-d or 3-d rotation matrix; dtypes of indices and values; '
    'multi-dimensional input and output; memory layout) or a set of polygons over a scene, 2-8 threads and '
    'operations (kernel, coverage, back-projection with coverage, with output arrays and accumulation, restriction, '
    'integration over the polygons, what must be refused), each run on one thread over two contents of the uninitialised memory, then under '
    'seeded schedules of the threads. Non-trivial: at least one region ran on several threads. Distinct: by the '
    'interleavings taken (hash of the switches).'
)
REAL = ['pysimulators.operators, sparse, packedtables.scenes', 'sparse.f90.j2, projection.f90.j2, module_geometry.f90.j2 '
        '(f2py wrappers included)', 'pyoperators', 'numpy']
STUB = ['the OpenMP runtime (SimOMP: team members are coroutines switched at memory accesses)',
        'the allocators of numpy and of the kernels (contents of fresh memory)']
BUDGET = {'quick': (16000, 45), 'thorough': (400000, 1500)}
ASSUMPTIONS = ['the kernels are compiled at -O0 with every access to shared memory instrumented; a race which only an '
               'optimisation creates is not seen']

FMT = ['fsr', 'fsrb', 'fsr2', 'fsr3']
BLOCKS = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
OPS = ['kernel', 'kernel', 'kernel_out', 'kernel_op', 'kernel_restrict', 'pt1', 'pt1_out', 'pt1_iadd', 'ptx', 'ptx_out',
       'ptx_iadd', 'refuse']
ROT3 = [(0, 0, 0), (5, 3, 4), (5, -4, 3), (2, 2, 0), (1, 0, -1), (13, 5, -12), (3, 0, 3), (10, 6, 8)]
ROT2 = [(0, 0), (3, 4), (4, -3), (2, 0), (0, -1), (-5, 12), (0, 3), (6, 8)]


def generate(rng, tier):
    c = {'T': rng.choice([2, 3, 4, 4, 8]), 'K': 3 if tier == 'quick' else 5}
    c['dseed'] = rng.getrandbits(31)
    c['sseed'] = rng.getrandbits(31)
    if rng.random() < 0.35:
        c['kind'] = 'polygon'
        c['shape'] = [rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 5, 8])]
        c['n'] = rng.choice([1, 2, 3, 6, 12, 20]) if rng.random() > 0.03 else 0
        c['nd'] = rng.choice([1, 1, 2])
        c['nv'] = rng.choice([3, 3, 4, 4, 5, 6])
        c['q'] = rng.choice([1, 2, 4, 8])
        c['spread'] = rng.choice([0, 1, 1, 3, 20])
        c['ncolmax'] = rng.choice([0, 0, 1, 2, 4, 40])
        c['dt'] = rng.choice(['f4', 'f8'])
        c['di'] = rng.choice(['i4', 'i8', None])
        return c
    c['kind'] = 'matrix'
    c['fmt'] = rng.choice(FMT)
    c['block'] = rng.choice(BLOCKS)
    c['nr'] = rng.choice([1, 2, 4, 6, 9, 12, 24])
    c['nc'] = rng.choice([1, 2, 4, 6, 9, 12, 24])
    if rng.random() < 0.03:
        c[rng.choice(['nr', 'nc'])] = 0
    c['nmax'] = rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() > 0.03 else 0
    c['di'] = rng.choice(['i4', 'i8'] * 5 + ['i2', 'i1', 'i1', 'u4', 'u1'])
    c['ds'] = rng.choice(['f4', 'f8'] * 5 + ['f2', 'f16'])
    c['dop'] = rng.choice([None, None, 'f4', 'f8'])
    c['dv'] = rng.choice(['f4', 'f8'] * 3 + ['f2', 'i4', '>f8'])
    c['index'] = rng.choice(['same', 'few', 'any', 'any', 'perm'])
    c['neg'] = rng.choice([0.0, 0.2, 0.9])
    c['zero'] = rng.choice([0.1, 0.5, 0.9])
    c['nd'] = rng.choice([0, 1, 1, 2])
    c['extra'] = rng.choice([0, 0, 0, 2, 3])
    c['layout'] = rng.choice(['C', 'C', 'C', 'strided', 'F', 'nd', 'ro'])
    c['ops'] = rng.sample(OPS, 3)
    return c


def shape_of(n, nd):
    """n as a shape of nd dimensions (or less)."""
    if nd == 2:
        for a in (2, 3):
            if n % a == 0 and n:
                return (a, n // a)
    return (n,)


def matrix(c, rng):
    f = c['fmt']
    bm, bn = {'': (1, 1), 'b': tuple(c['block']), '2': (2, 2), '3': (3, 3)}[f[3:]]
    nr, nc, nmax = c['nr'], c['nc'], c['nmax']
    dt = {
        '': [('index', c['di']), ('value', c['ds'])],
        'b': [('index', c['di']), ('value', c['ds'], (bm, bn))],
        '2': [('index', c['di']), ('r11', c['ds']), ('r21', c['ds'])],
        '3': [('index', c['di']), ('r11', c['ds']), ('r22', c['ds']), ('r32', c['ds'])],
    }[f[3:]]
    if nc == 0:
        nmax = 0
    data = np.zeros((nr, nmax), dt)
    if nc == 0:
        idx = np.zeros((nr, 0), int)
    elif c['index'] == 'same':
        idx = np.full((nr, nmax), rng.integers(nc))
    elif c['index'] == 'few':
        idx = rng.integers(min(nc, 2), size=(nr, nmax))
    elif c['index'] == 'perm':
        idx = (np.arange(nr)[:, None] + np.arange(nmax)) % nc
    else:
        idx = rng.integers(nc, size=(nr, nmax))
    if c['di'][0] == 'i':
        idx = np.where(rng.random(idx.shape) < c['neg'], -rng.integers(1, 4, size=idx.shape), idx)
    data['index'] = idx
    z = rng.random(idx.shape) < c['zero']
    if f == 'fsr':
        data['value'] = np.where(z, 0, rng.integers(-3, 4, size=idx.shape))
    elif f == 'fsrb':
        data['value'] = np.where(z[..., None, None], 0, rng.integers(-3, 4, size=idx.shape + (bm, bn)))
        # a single non-zero element, not the first one
        for i in np.argwhere(rng.random(idx.shape) < 0.3):
            i = tuple(i)
            data['value'][i] = 0
            data['value'][i][rng.integers(bm), rng.integers(bn)] = 2
    else:
        table = np.array(ROT2 if f == 'fsr2' else ROT3)
        t = table[np.where(z, 0, rng.integers(len(table), size=idx.shape))]
        for i, n in enumerate(data.dtype.names[1:]):
            data[n] = t[..., i]
    lay = c['layout']
    logical = data
    if lay == 'strided':
        big = np.zeros((2 * nr, nmax), dt)
        big['index'] = 100
        big[::2] = data
        data = big[::2]
    elif lay == 'F':
        data = np.asfortranarray(data)
    elif lay == 'nd' and nr % 2 == 0 and nr and nmax:
        data = data.reshape((2, nr // 2, nmax))
    elif lay == 'ro':
        data.flags.writeable = False
    return data, logical, bm, bn


def run(c, ns):
    info = Info()
    rng = np.random.Generator(np.random.PCG64(c['dseed']))
    sched = ompcheck.Sched(c, ns, info)
    if c['kind'] == 'polygon':
        run_polygon(c, ns, rng, sched, info)
    else:
        run_matrix(c, ns, rng, sched, info)
    info.nontrivial = info.stats['steps'] > 0
    return info


def run_matrix(c, ns, rng, sched, info):
    import pysimulators.sparse as S
    from pysimulators import ProjectionOperator

    data, d, bm, bn = matrix(c, rng)
    f = c['fmt']
    nr, nc = c['nr'], c['nc']
    cls = {'fsr': S.FSRMatrix, 'fsrb': S.FSRBlockMatrix, 'fsr2': S.FSRRotation2dMatrix, 'fsr3': S.FSRRotation3dMatrix}[f]
    extra = c['extra'] if f == 'fsr' and c['nd'] else 0
    keywords = {}
    si, so = (nc,), (nr,)
    if c['nd']:
        si, so = shape_of(nc, c['nd']), shape_of(nr, c['nd'])
        e = (extra,) if extra else ()
        keywords = {
            'shapein': si + ((bn,) if bn > 1 else e), 'shapeout': so + ((bm,) if bm > 1 else e),
        }
    if 0 in (nr, nc) and c['nd']:
        return
    if c['dop']:
        keywords['dtype'] = np.dtype(c['dop'])
    snapshot = data.tobytes()

    M = cls((nr * bm, nc * bn), data=data)

    def op():
        return ProjectionOperator(M, **keywords)

    # the elements, as a list
    if d.size:
        flat = d.ravel()
        ok = flat['index'].astype(int) >= 0
        ind = flat['index'].astype(int)[ok]
        row = np.repeat(np.arange(nr), d.shape[1])[ok]
        names = d.dtype.names[1:]
        nonzero = np.zeros(ok.sum(), bool)
        for n in names:
            v = flat[n][ok]
            nonzero |= np.any((v != 0).reshape((len(v), int(np.prod(v.shape[1:])))), axis=1)
    else:
        ind = row = np.zeros(0, int)
        nonzero = np.zeros(0, bool)
        flat = None
    observed = np.zeros(nc, bool)
    observed[ind[nonzero]] = True
    eshape = (extra,) if extra else ()
    shape = si + eshape if c['nd'] else (nc,)

    def spread(x, ex):
        """Pixel values to the shape of the input of the operator."""
        x = np.asarray(x).reshape(si if c['nd'] else (nc,))
        return np.repeat(x[..., None], extra, axis=-1) if ex and extra else x

    kernel = spread(~observed, True)
    if f == 'fsr':
        weight = flat['value'][ok].astype(float) if flat is not None else np.zeros(0)
    elif f == 'fsr2':
        weight = np.hypot(flat['r11'][ok].astype(float), flat['r21'][ok].astype(float)) if flat is not None else np.zeros(0)
    elif f == 'fsr3':
        weight = flat['r11'][ok].astype(float) if flat is not None else np.zeros(0)
    else:
        weight = None
    if weight is not None:
        cov = np.zeros(nc)
        np.add.at(cov, ind, weight)
        coverage = spread(cov, True)
    fdt = np.result_type(M.dtype, keywords.get('dtype', M.dtype))

    def x_of():
        sh = (so if c['nd'] else (nr,)) + ((bm,) if bm > 1 else eshape)
        lo, hi = -4, 5
        return rng.integers(lo, hi, size=sh).astype(c['dv'])

    def out_array(shape, dtype, kind):
        if kind == 0 or not shape:
            return np.empty(shape, dtype)
        if kind == 1:
            return np.empty(shape[:-1] + (2 * shape[-1],), dtype)[..., ::2]
        return np.empty(shape, dtype, order='F')

    for name in c['ops']:
        info.probes['format_' + f] += 1
        if name == 'kernel':
            sched('kernel', lambda: op().canonical_basis_in_kernel(), kernel)
        elif name == 'kernel_out':
            kind = int(rng.integers(3))

            def f_kernel_out():
                out = out_array(kernel.shape, bool, kind)
                r = op().canonical_basis_in_kernel(out=out)
                if r is not out:
                    raise Violation('wrong:kernel_out', 'the output is not the array given as output')
                return out

            sched('kernel_out', f_kernel_out, kernel)
        elif name == 'kernel_op':
            k0 = rng.random(kernel.shape) < 0.5
            o = [operator.iand, operator.ior, operator.imul, operator.ixor][rng.integers(4)]
            kind = int(rng.integers(3))

            def f_kernel_op():
                out = out_array(kernel.shape, bool, kind)
                out[...] = k0
                op().canonical_basis_in_kernel(out=out, operation=o)
                return out

            sched('kernel_op', f_kernel_op, o(k0.copy(), kernel))
        elif name == 'kernel_restrict':
            if c['di'][0] == 'u' or 0 in (nr, nc) or extra:
                continue
            m = rng.random(nc) < rng.choice([0.2, 0.5, 0.9])
            if not m.any():
                m[0] = True

            def f_kernel_restrict():
                return op().restrict(m.reshape(si if c['nd'] else (nc,))).canonical_basis_in_kernel()

            sched('kernel_restrict', f_kernel_restrict, ~observed[m])
        elif name in ('pt1', 'pt1_out', 'pt1_iadd'):
            if weight is None or 0 in (nr, nc):
                continue
            if name == 'pt1':
                sched('pt1', lambda: op().pT1(), coverage)
                continue
            kind = int(rng.integers(3))
            dt = fdt if rng.random() < 0.5 else np.dtype('f8')
            o0 = rng.integers(-3, 4, size=coverage.shape)

            def f_pt1():
                out = out_array(coverage.shape, dt, kind)
                if name == 'pt1_iadd':
                    out[...] = o0
                    r = op().pT1(out=out, operation=operator.iadd)
                else:
                    r = op().pT1(out=out)
                if r is not out:
                    raise Violation('wrong:' + name, 'the output is not the array given as output')
                return out

            sched(name, f_pt1, coverage + (o0 if name == 'pt1_iadd' else 0))
        elif name == 'refuse':
            if 0 in (nr, nc):
                continue
            refuse(S, op, M, f, kernel.shape, shape, x_of, rng, sched)
        else:
            if f not in ('fsr', 'fsr3') or 0 in (nr, nc):
                continue
            x = x_of()
            x2 = x.astype(float).reshape((nr, -1))
            px = np.zeros((nc, x2.shape[1] if f == 'fsr' else 1))
            if f == 'fsr':
                np.add.at(px, ind, weight[:, None] * x2[row])
            else:
                np.add.at(px, ind, weight[:, None] * x2[row][:, :1])
            px = px.reshape((si if c['nd'] else (nc,)) + (eshape if f == 'fsr' else ()))
            if name == 'ptx':
                sched('ptx', lambda: op().pTx_pT1(x.copy()), (px, coverage))
                continue
            kind = int(rng.integers(3))
            dt = max(op().dtype, x.dtype)
            o0 = rng.integers(-3, 4, size=coverage.shape)
            o1 = rng.integers(-3, 4, size=coverage.shape)

            def f_ptx():
                out = out_array(coverage.shape, dt, kind), out_array(coverage.shape, dt, (kind + 1) % 3)
                if name == 'ptx_iadd':
                    out[0][...] = o0
                    out[1][...] = o1
                    op().pTx_pT1(x.copy(), out=out, operation=operator.iadd)
                else:
                    op().pTx_pT1(x.copy(), out=out)
                return out

            k = name == 'ptx_iadd'
            sched(name, f_ptx, (px + (o0 if k else 0), coverage + (o1 if k else 0)))
    if data.tobytes() != snapshot:
        raise Violation('matrix-altered', f'the matrix is altered by {c["ops"]}')
    info.probes['index_' + c['di']] += 1
    info.probes['value_' + c['ds']] += 1


# ------------------------------------------------------------------ polygons
def area(p):
    return abs(sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))) / 2


def clip(p, axis, bound, keep_low):
    out = []
    for i in range(len(p)):
        a, b = p[i - 1], p[i]
        ina = a[axis] <= bound if keep_low else a[axis] >= bound
        inb = b[axis] <= bound if keep_low else b[axis] >= bound
        if ina != inb:
            t = (bound - a[axis]) / (b[axis] - a[axis])
            out.append(tuple(bound if k == axis else a[k] + t * (b[k] - a[k]) for k in (0, 1)))
        if inb:
            out.append(b)
    return out


def hull(points):
    """Convex hull, counterclockwise, without collinear points."""
    points = sorted(set(points))
    if len(points) < 3:
        return points

    def half(ps):
        h = []
        for q in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) <= (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]):
                h.pop()
            h.append(q)
        return h[:-1]

    return half(points) + half(points[::-1])


def star(rng, nv, lo, hi):
    """A polygon which is star-shaped, usually not convex."""
    cx, cy = (int(x) for x in rng.integers(lo, hi + 1, size=2))
    rays = {}
    for a, b in rng.integers(-(hi - lo) // 2, (hi - lo) // 2 + 1, size=(4 * nv, 2)).tolist():
        if a or b:
            g = math.gcd(a, b)
            rays.setdefault((a // g, b // g), (a, b))
    rays = list(rays.values())[:nv]
    rays.sort(key=lambda r: math.atan2(r[1], r[0]))
    if len(rays) < nv or any(rays[i - 1][0] * rays[i][1] - rays[i - 1][1] * rays[i][0] <= 0 for i in range(nv)):
        return None
    return [(cx + a, cy + b) for a, b in rays]


def refuse(S, op, M, f, kshape, shape, x_of, rng, sched):
    """Invalid output arrays, operations and operands are refused."""
    from pysimulators import ProjectionOperator

    P = op()
    bad = tuple(n + 1 for n in kshape)
    dt = P.dtype
    calls = {
        'kernel_no_out': lambda: P.canonical_basis_in_kernel(operation=operator.iand),
        'kernel_dtype': lambda: P.canonical_basis_in_kernel(out=np.ones(kshape, [np.int8, float][len(bad) % 2])),
        'kernel_shape': lambda: P.canonical_basis_in_kernel(out=np.ones(bad, bool)),
        'pt1_list': lambda: P.pT1(out=np.zeros(kshape).tolist()),
        'pt1_shape': lambda: P.pT1(out=np.zeros(bad, dt)),
        'pt1_operation': lambda: P.pT1(out=np.ones(kshape, dt), operation=operator.imul),
        'type': lambda: ProjectionOperator(M._transpose()),
        'type_dense': lambda: ProjectionOperator(np.ones((3, 2))),
    }
    x = x_of()
    d = max(dt, x.dtype)
    if f == 'fsr2':
        calls['ptx_rot2d'] = lambda: P.pTx_pT1(x)
    else:
        z, b = np.zeros(kshape, d), np.zeros(bad, d)
        w = np.zeros(kshape, 'c16')
        calls.update({
            'ptx_input': lambda: P.pTx_pT1(np.zeros(tuple(n + 1 for n in x.shape))),
            'ptx_tuple': lambda: P.pTx_pT1(x, out=z),
            'ptx_triple': lambda: P.pTx_pT1(x, out=(z, z, z)),
            'ptx_dtype0': lambda: P.pTx_pT1(x, out=(w, z)),
            'ptx_dtype1': lambda: P.pTx_pT1(x, out=(z, w)),
            'ptx_shape0': lambda: P.pTx_pT1(x, out=(b, z)),
            'ptx_shape1': lambda: P.pTx_pT1(x, out=(z, b)),
            'ptx_operation': lambda: P.pTx_pT1(x, out=(z, z.copy()), operation=operator.imul),
        })
    k = sorted(calls)[int(rng.integers(len(calls)))]

    def f_refuse():
        try:
            calls[k]()
        except (TypeError, ValueError, NotImplementedError) as e:
            return type(e).__name__
        except KeyError as e:
            return type(e).__name__ if k.startswith('type') else repr(e)
        return 'accepted'

    sched('refuse', f_refuse, lambda r: f'{k}: {r}' if not r.endswith('Error') else None, serial_only=True)


def run_polygon(c, ns, rng, sched, info):
    from pysimulators import SceneGrid

    ny, nx = c['shape']
    q, nv, n = c['q'], c['nv'], c['n']
    polygons = []
    for _ in range(n):
        # integer vertices in units of 1/q pixel
        lo, hi = -c['spread'] * q, (max(nx, ny) + c['spread']) * q
        for _ in range(50):
            if rng.random() < 0.5:
                cx, cy = rng.integers(lo, hi + 1), rng.integers(lo, hi + 1)
                r = int(rng.choice([1, q, 2 * q]))
                pts = {(int(cx + a), int(cy + b)) for a, b in rng.integers(-r, r + 1, size=(3 * nv, 2))}
            else:
                pts = {(int(a), int(b)) for a, b in rng.integers(lo, hi + 1, size=(3 * nv, 2))}
            h = hull(list(pts))
            if len(h) >= 3:
                break
        else:
            h = [(0, 0), (q, 0), (0, q)]
        if len(h) > nv:
            keep = sorted(rng.choice(len(h), nv, replace=False))
            h = [h[i] for i in keep]
        while len(h) < nv:
            # repeat a vertex
            i = int(rng.integers(len(h)))
            h.insert(i, h[i])
        if nv > 3 and rng.random() < 0.3:
            h = star(rng, nv, lo, hi) or h
        if rng.random() < 0.5:
            h = h[::-1]
        k = int(rng.integers(nv))
        polygons.append(h[k:] + h[:k])
    shape = shape_of(n, c['nd'])
    poly = np.array(polygons, float).reshape(shape + (nv, 2)) / q
    dt = np.dtype(c['dt'])
    scene = SceneGrid((ny, nx))

    # what is expected, exactly
    exact = np.zeros((n, ny * nx))
    outside = False
    for i, h in enumerate(polygons):
        p = [(Fraction(x, q), Fraction(y, q)) for x, y in h]
        xs, ys = [x for x, _ in p], [y for _, y in p]
        outside |= min(xs) < Fraction(-1, 2) or max(xs) > nx - Fraction(1, 2)
        outside |= min(ys) < Fraction(-1, 2) or max(ys) > ny - Fraction(1, 2)
        half = Fraction(1, 2)
        for iy in range(ny):
            for ix in range(nx):
                if max(xs) <= ix - half or min(xs) >= ix + half or max(ys) <= iy - half or min(ys) >= iy + half:
                    continue
                s = p
                for ax, b, low in ((0, ix - half, False), (0, ix + half, True), (1, iy - half, False), (1, iy + half, True)):
                    s = clip(s, ax, b, low)
                    if len(s) < 3:
                        break
                else:
                    exact[i, iy * nx + ix] = float(area(s))
    eps = 64 * np.finfo(dt).eps * (4 + nx + ny + 2 * c['spread']) ** 2
    kw = {} if c['di'] is None else {'dtype_index': np.dtype(c['di'])}

    def check(out):
        r = out
        dense, index, value, ncolmax, outs, shapes = r
        if np.any(np.abs(dense - exact) > eps):
            k = np.argwhere(np.abs(dense - exact) > eps)[0]
            return f'the weight of pixel {k[1]} in polygon {polygons[k[0]]} (/{q}) is {dense[tuple(k)]} instead of {exact[tuple(k)]}'
        if shapes != repr(((ny, nx), shape)):
            return f'shapes {shapes}'
        if index.dtype != np.dtype(c['di'] or 'i4') or value.dtype != dt:
            return f'dtypes {index.dtype}, {value.dtype}'
        if outs != outside:
            # a polygon which touches the border
            return f'outside is {outs} instead of {outside}'
        if n and index.size:
            ok = index >= 0
            if np.any(index[~ok] != -1) or np.any(value[~ok] != 0):
                return 'the unused elements are not (-1, 0)'
            if np.any(ok[:, 1:] & ~ok[:, :-1]):
                return 'unused elements before used ones'
            if np.any(value[ok] <= 0):
                return 'an element has a null or negative weight'
            for i in range(n):
                a = index[i][ok[i]]
                if len(set(a.tolist())) != len(a):
                    return 'a pixel is in a row several times'
            need = int(ok.sum(axis=1).max())
        else:
            need = 0
        if ncolmax != need:
            return f'min_ncolmax is {ncolmax}, but {need} elements are used'
        if n and index.shape[-1] != max(need, c['ncolmax']):
            return f'{index.shape[-1]} elements in a row'
        return None

    def f_integration():
        P = scene.get_integration_operator(poly, ncolmax=c['ncolmax'], dtype=dt, **kw)
        d = P.matrix.data
        index, value = np.array(d.index), np.array(d.value)
        dense = np.zeros((n, nx * ny))
        for i in range(n):
            for k, v in zip(index.reshape((n, -1))[i], value.reshape((n, -1))[i]):
                if k >= nx * ny:
                    raise Violation('wrong:integration', f'index {k} is out of bounds')
                if k >= 0:
                    dense[i, k] += v
        return dense, index, value, int(P.min_ncolmax), bool(P.outside), repr((P.shapein, P.shapeout))

    sched('integration', f_integration, check)
    info.probes['polygon_outside'] += outside
    info.probes['two_passes'] += bool((exact > 0).sum(axis=1).max(initial=0) > c['ncolmax'])


def shrink(c):
    yield from ompcheck.shrink_plan(c)
    if 'plan' in c:
        return
    if len(c.get('ops', [])) > 1:
        for o in c['ops']:
            yield dict(c, ops=[o])
    if c['kind'] == 'polygon':
        yield from ompcheck.shrink_keys(c, {
            'n': [1, 2, 3, 6], 'nv': [3, 4], 'q': [1, 2], 'spread': [0, 1], 'ncolmax': [0], 'dt': ['f8'], 'di': [None],
            'nd': [1], 'T': [2],
        })
        for i in (0, 1):
            for v in (1, 2, 3):
                if v < c['shape'][i]:
                    yield dict(c, shape=[v if k == i else s for k, s in enumerate(c['shape'])])
    else:
        yield from ompcheck.shrink_keys(c, {
            'layout': ['C'], 'dv': ['f8', 'f4'], 'dop': [None], 'ds': ['f8', 'f4'], 'di': ['i4', 'i8'], 'extra': [0],
            'nd': [0, 1], 'neg': [0.0], 'nmax': [1, 2], 'nr': [1, 2, 4, 6], 'nc': [1, 2, 4, 6], 'index': ['any'], 'T': [2],
        })


pin = ompcheck.pin(sys.modules[__name__])
