"""C01: scattering a table over the processes of a job, and gathering it back."""

import copy

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C01'
RULE = (
    'A case is a table (class, shape, selection or ordering, pre-slicing, attributes of random dtypes and extra '
    'dimensions), a job size (1-7 ranks, also more ranks than elements), a communicator (world, duplicate, '
    'sub-communicator, cartesian row), a seed for the rank schedule and a list of operations. Non-trivial: more than '
    'one rank. Distinct: by the list of scheduling and completion choices taken.'
)
REAL = ['pysimulators.packedtables', 'pysimulators.instruments', 'pyoperators', 'numpy']
STUB = ['mpi4py (SimMPI: ranks are coroutine threads, one runs at a time, seeded scheduler and completion order)']
BUDGET = {'quick': (2600, 45), 'thorough': (200000, 1500)}
ASSUMPTIONS = [
    'SimMPI implements the MPI semantics of the collectives the package uses; ranks share one address space '
    '(numpy random state and the pyoperators memory pool are swapped per rank).'
]

DTYPES = ['i1', 'u2', 'i4', 'i8', 'f4', 'f8', 'c16', '?', 'S5', 'U3', 'st', '>f8', '>i2']


def dtype_of(name):
    if name == 'st':
        return np.dtype([('re', 'f8'), ('k', 'i2')])
    return np.dtype(name)


def fill(shape, name, seed):
    dt = dtype_of(name)
    rng = np.random.Generator(np.random.PCG64(seed))
    n = int(np.prod(shape, dtype=int))
    if name == 'st':
        out = np.zeros(n, dt)
        out['re'] = rng.integers(-1000, 1000, n)
        out['k'] = np.arange(n)
        return out.reshape(shape)
    if dt.kind in 'SU':
        return np.array([f'{v}' for v in rng.integers(0, 999, n)], dtype=dt).reshape(shape)
    if dt.kind == 'b':
        return (rng.integers(0, 2, n) == 1).reshape(shape)
    if dt.kind == 'c':
        return (rng.integers(-99, 99, n) + 1j * rng.integers(-99, 99, n)).astype(dt).reshape(shape)
    lo = 0 if dt.kind == 'u' else -120
    return rng.integers(lo, 120, n).astype(dt).reshape(shape)


def generate(rng, tier):
    c = {'n': rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]), 'wseed': rng.getrandbits(32), 'seed': rng.getrandbits(32)}
    c['comm'] = rng.choice(['world', 'world', 'dup', 'half', 'row', 'default'])
    c['cls'] = rng.choice(['PackedTable'] * 5 + ['LayoutGrid', 'LayoutGridSquares', 'Layout', 'Sampling',
                                                 'SamplingEquatorial', 'SamplingHorizontal', 'Instrument', 'Scene'])
    nd = rng.choice([1, 1, 2, 2, 3])
    if c['cls'].startswith('Sampling'):
        nd = 1
    elif c['cls'].startswith('LayoutGrid'):
        nd = 2
    big = 12 if nd == 1 else 5 if nd == 2 else 3
    c['shape'] = [rng.randint(1, big) for _ in range(nd)]
    if nd == 1 and rng.random() < 0.08:
        c['shape'] = [0]
    c['ndim'] = None
    if nd > 1 and c['cls'] == 'PackedTable' and rng.random() < 0.3:
        c['ndim'] = rng.randint(1, nd - 1)
    actual = c['shape'][: c['ndim'] or nd]
    size = int(np.prod(actual))
    sel = rng.choice(['none', 'none', 'bool', 'int', 'slice', 'order', 'order', 'orderbool', 'tuple', 'tuples', 'orderint', 'ordertuple', 'orderslice'])
    if c['cls'] == 'SamplingHorizontal':
        sel = 'none'
    c['sel'] = sel
    if sel in ('bool', 'orderbool'):
        p = rng.choice([0.0, 0.3, 0.7, 1.0])
        c['mask'] = [int(rng.random() < p) for _ in range(size)]
    if sel in ('int', 'orderint'):
        k = list(range(size))
        rng.shuffle(k)
        c['ints'] = k[: rng.randint(0, size)]
        if rng.random() < 0.4:
            c['ints'].sort()
        elif rng.random() < 0.4:
            # an arithmetic progression: it may be stored as a slice
            c['ints'] = list(range(size))[:: rng.choice([-1, -1, -2, 2])][rng.choice([0, 0, 1]):]
        if rng.random() < 0.2:
            c['ints'] = [v - size for v in c['ints']]
    if sel in ('slice', 'orderslice'):
        c['slice'] = [rng.choice([None, rng.randint(0, max(size, 1))]), rng.choice([None, rng.randint(0, size + 1)]),
                      rng.choice([None, 1, 1, 2, 3])]
        if rng.random() < 0.3:
            c['slice'] = [rng.choice([None, rng.randint(-size - 2, size + 2)]),
                          rng.choice([None, rng.randint(-size - 2, size + 2)]), rng.choice([-3, -2, -1, -1, 1, 2])]
    if sel == 'tuple':
        a = rng.randint(0, max(actual[0] - 1, 0))
        c['slice'] = [a, rng.randint(a, actual[0]), rng.choice([1, 1, 2])]
        if rng.random() < 0.3:
            c['slice'] = [rng.choice([None, -1, -2]), None, rng.choice([1, 2])]
    if sel in ('tuples', 'ordertuple'):
        # a slice for each of the first dimensions
        c['slices'] = []
        for m in actual[: rng.randint(1, len(actual))]:
            a = rng.randint(0, m)
            c['slices'].append(rng.choice([None, [None, None, rng.choice([None, 1, 2, -1])], [a, rng.randint(a, m + 1), rng.choice([None, 1, 2])],
                                           [-rng.randint(1, m + 1), None, None]]))
        if c['slices'][-1] is None:
            c['slices'][-1] = [None, None, None]
    if sel.startswith('order'):
        k = list(range(size))
        rng.shuffle(k)
        c['order'] = [v if rng.random() < 0.85 else -1 for v in k]
        if rng.random() < 0.3:
            c['order'] = list(range(size))[:: rng.choice([-1, -1, 1])]
            if rng.random() < 0.3:
                c['order'] = [v if i % 2 else -1 for i, v in enumerate(c['order'])]
        elif rng.random() < 0.25:
            # equal values, which leave the elements in the order of their positions
            if nd == 1 and c['cls'] == 'PackedTable' and sel in ('order', 'orderbool'):
                size = rng.choice([20, 33, 60])
                c['shape'] = [size]
                if sel == 'orderbool':
                    c['mask'] = [int(rng.random() < 0.8) for _ in range(size)]
            c['order'] = [rng.randint(-1, 4) for _ in range(size)]
        c['order_list'] = rng.random() < 0.3
    c['pre'] = None
    if rng.random() < 0.3:
        c['pre'] = rng.choice([
            [None, None, 2], [1, None, 1], [0, None, 3], [0, 0, 1], [0, 2, 1], [None, None, -1], [None, None, -2],
            [-2, None, None], [None, -1, None], [rng.randint(-6, 6), rng.randint(-6, 6), rng.choice([-3, -2, -1, 1, 2])],
            [rng.randint(0, 6), None, -1], [rng.randint(0, 6), -50, -1], 'twice', 'neg', 'pick', 'mask',
        ])
    c['attrs'] = [
        [rng.choice(DTYPES), [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 2]))]]
        for _ in range(rng.randint(0, 3))
    ]
    c['scalar'] = rng.random() < 0.4
    c['func'] = rng.random() < 0.4
    c['unit'] = rng.random() < 0.4
    c['qattr'] = rng.random() < 0.3
    ops = ['gather', 'array', 'arrayF', 'unpack', 'again', 'split', 'write', 'twice', 'local_slice', 'sub_gather', 'alone', 'copy', 'loop',
           'pack', 'pack', 'unpack_array', 'unpack_array', 'setattr', 'refused']
    c['ops'] = [[rng.choice(ops), rng.getrandbits(16), rng.choice(DTYPES)] for _ in range(rng.randint(2, 5))]
    return c


def build(c):
    """The global table, and its class name."""
    import pysimulators as ps
    from pysimulators import PackedTable

    shape = tuple(c['shape'])
    actual = shape[: c['ndim'] or len(shape)]
    kw = {}
    if c['sel'] in ('bool', 'orderbool'):
        kw['selection'] = np.array(c['mask'], bool).reshape(actual)
    elif c['sel'] in ('int', 'orderint'):
        kw['selection'] = list(c['ints'])
    elif c['sel'] in ('slice', 'orderslice'):
        kw['selection'] = slice(*c['slice'])
    elif c['sel'] == 'tuple':
        kw['selection'] = (slice(*c['slice']),)
    elif c['sel'] in ('tuples', 'ordertuple'):
        kw['selection'] = tuple(Ellipsis if v is None and len(c['slices']) == 1 else slice(*(v or [None])) for v in c['slices'])
    if 'order' in c['sel']:
        kw['ordering'] = np.array(c['order'], int).reshape(actual)
        if c.get('order_list'):
            kw['ordering'] = kw['ordering'].tolist()
    for i, (dt, extra) in enumerate(c['attrs']):
        kw[f'a{i}'] = fill(actual + tuple(extra), dt, c['seed'] + i)
    if c['scalar']:
        kw['scal'] = 3.5
    if c.get('qattr') and c['cls'] != 'Scene':
        kw['q'] = ps.Quantity(fill(actual + (2,), 'f8', c['seed'] + 91), 'Jy')
    if c['func']:
        kw['fun'] = lambda s: s.index * 2
        kw['fun0'] = lambda: 5
        kw['fun1'] = lambda s, x=3: s.index + x
        kw['fun2'] = lambda s, x: s.index + x
    cls = c['cls']
    if cls == 'PackedTable':
        t = PackedTable(shape, ndim=c['ndim'], **kw)
    elif cls == 'Layout':
        t = ps.Layout(shape, center=fill(shape + (2,), 'f8', c['seed'] + 77), **kw)
    elif cls in ('LayoutGrid', 'LayoutGridSquares', 'Instrument'):
        if cls == 'Instrument' and len(shape) != 2:
            t = PackedTable(shape, **kw)
        else:
            sp = ps.Quantity(2.0, 'mm') if c['unit'] else 2.0
            k = ps.LayoutGridSquares if cls == 'LayoutGridSquares' else ps.LayoutGrid
            t = k(shape, sp, **kw)
    elif cls == 'Sampling':
        if c['unit']:
            kw['time'] = np.arange(shape[0]) * 0.5
        t = ps.Sampling(shape[0], period=0.25, **kw)
    elif cls == 'SamplingEquatorial':
        t = ps.SamplingEquatorial(ra=fill(shape, 'f8', 5), dec=fill(shape, 'f8', 6) / 2, **kw)
    elif cls == 'SamplingHorizontal':
        t = ps.SamplingHorizontal(azimuth=fill(shape, 'f8', 5), elevation=fill(shape, 'f8', 6) / 2 + 1,
                                  latitude=10., longitude=20., **kw)
    elif cls == 'Scene':
        t = ps.Scene(shape)
        t.k = 4
    if c['pre'] is not None:
        t = t[preselection(c, len(t))]
    if cls == 'Instrument':
        t = ps.Instrument(t, 'instr')
    return t


def preselection(c, n, pre=None):
    pre = pre or c['pre']
    if isinstance(pre, list):
        return slice(*pre)
    rng = np.random.Generator(np.random.PCG64(c['seed']))
    if pre == 'mask':
        return rng.integers(0, 2, n) == 1
    i = rng.permutation(n)[: rng.integers(0, n + 1)]
    if pre == 'neg' and n and rng.integers(0, 2):
        i = np.arange(-int(rng.integers(1, n + 1)), int(rng.integers(0, n)), int(rng.integers(1, 3)))
    elif pre == 'neg' and n:
        i = np.where(rng.integers(0, 2, i.size) == 1, i - n, i)
    elif pre == 'twice' and n:
        i = rng.integers(0, n, rng.choice([1, 2, 2, 3, 5]))
        if rng.integers(0, 2):
            i[...] = i[0]
    return list(i) if rng.integers(0, 2) else i


def reference_index(c):
    """The elements a table should have, from the documentation of the class."""
    shape = c['shape']
    actual = shape[: c['ndim'] or len(shape)]
    size = int(np.prod(actual))
    keep = np.ones(size, bool)
    index = np.arange(size).reshape(actual)
    if c['sel'] in ('bool', 'orderbool'):
        keep = np.array(c['mask'], bool)
        index = index.reshape(-1)[keep]
    elif c['sel'] == 'int':
        index = index.reshape(-1)[np.array(c['ints'], int)]
    elif c['sel'] in ('slice', 'orderslice'):
        index = index.reshape(-1)[slice(*c['slice'])]
    elif c['sel'] == 'tuple':
        index = index[slice(*c['slice'])]
    elif c['sel'] in ('tuples', 'ordertuple'):
        index = index[tuple(slice(*(v or [None])) for v in c['slices'])]
        # the elements of a selection along several dimensions are in the order of storage
        if len(actual) > 1:
            index = np.sort(index, axis=None)
    if c['sel'] in ('orderint', 'ordertuple', 'orderslice'):
        if c['sel'] == 'orderint':
            index = np.arange(size)[np.array(c['ints'], int)]
        keep[:] = False
        keep[index] = True
    if 'order' in c['sel']:
        order = sorted((o, i) for i, o in enumerate(c['order']) if o >= 0 and keep[i])
        index = np.array([i for _, i in order], int)
    return index.reshape(-1)


def names(t):
    return [k for k in t._special_attributes if k not in ('index', 'removed')]


def value(t, k):
    return getattr(t, k)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))


def check(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def run(c, ns):
    info = Info()
    from pyoperators import MPI
    from pyoperators.utils import split

    ref = build(c)
    inst = c['cls'] == 'Instrument'
    rt = ref.detector if inst else ref
    ntot = len(rt)
    refs = {k: copy.deepcopy(value(rt, k)) for k in names(rt) if k not in ('velocity', 'fun2')}
    if c['func'] and 'fun' in refs:
        check(same(refs['fun'], rt.index * 2) and refs['fun0'] == 5 and same(refs['fun1'], rt.index + 3), 'function', 'functions of a table')
    refidx = rt.index.copy()
    if c['pre'] is None and c['cls'] != 'Scene':
        want = reference_index(c)
        check(same(refidx, want), 'selection', f'index: {refidx}, not {want}')
        check(ntot == len(want), 'selection', f'{ntot} elements, not {len(want)}')
        actual, size = rt._shape_actual, rt._size_actual
        for i, (dt, extra) in enumerate(c['attrs']):
            x = fill(actual + tuple(extra), dt, c['seed'] + i).reshape((size,) + tuple(extra))[want]
            check(same(refs[f'a{i}'], x), 'packed', f'attribute {refs[f"a{i}"]} is not {x}')
        if c.get('qattr'):
            x = fill(actual + (2,), 'f8', c['seed'] + 91).reshape(size, 2)[want]
            check(same(refs['q'], x) and type(refs['q']).__name__ == 'Quantity' and refs['q'].unit == 'Jy', 'packed', f'q is {refs["q"]!r}')
    if c['pre'] is not None and not inst:
        t0 = build(dict(c, pre=None))
        sel = preselection(c, len(t0))
        if isinstance(sel, list):
            sel = np.array(sel, int)
        check(same(rt.index, t0.index[sel]), 'selection', f'index of [{sel}]: {rt.index}, not {t0.index[sel]}')
        for k, v in refs.items():
            v0 = getattr(t0, k)
            if v is not None and np.ndim(v0) and np.shape(v0)[0] == len(t0):
                check(same(v, np.asarray(v0)[sel]), 'selection', f'{k} of [{sel}]: {v}, not {np.asarray(v0)[sel]}')

    def body(rank):
        g = build(c)
        gt = g.detector if inst else g
        kind = c['comm']
        if kind == 'default':
            comm = None
            actual_comm = MPI.COMM_WORLD
        elif kind == 'world':
            comm = actual_comm = MPI.COMM_WORLD
        elif kind == 'dup':
            comm = actual_comm = MPI.COMM_WORLD.Dup()
        elif kind == 'half':
            comm = actual_comm = MPI.COMM_WORLD.Split(rank % 2, -rank)
        else:
            m = max(k for k in range(1, c['n'] + 1) if c['n'] % k == 0 and k <= 3)
            comm = actual_comm = MPI.COMM_WORLD.Create_cart([c['n'] // m, m], reorder=True).Sub([False, True])
        P, p = actual_comm.size, actual_comm.rank
        loc = g.scatter(comm)
        lt = loc.detector if inst else loc
        s = split(ntot, P, p)
        check(len(loc) == s.stop - s.start, 'partition', f'rank {p} of {P} has {len(loc)} elements of {ntot}')
        check(loc.comm.size == P, 'comm', f'the scattered table has a communicator of size {loc.comm.size}, not {P}')
        check(same(lt.index, refidx[s]), 'partition', f'rank {p}: index {lt.index} is not {refidx[s]}')
        check(gt.comm.size == 1 and same(gt.index, refidx), 'global-altered', 'scatter altered the global table')
        all_idx = actual_comm.allgather(lt.index)
        check(same(np.concatenate(all_idx), refidx), 'partition', 'the local pieces do not make up the table')
        check(lt.shape == rt.shape and lt.ndim == rt.ndim and type(lt) is type(rt), 'partition', 'shape, ndim or type')
        for k, v in refs.items():
            w = value(lt, k)
            if v is None:
                check(w is None, 'attribute', f'{k} is {w!r}')
            elif np.ndim(v) == 0 or np.shape(v)[0] != ntot:
                check(same(v, w), 'attribute', f'scalar {k}: {w} is not {v}')
            else:
                check(same(np.asarray(v)[s], w), 'attribute', f'rank {p}: {k} is {w}, not {np.asarray(v)[s]}')
                check(getattr(v, 'unit', None) == getattr(w, 'unit', None), 'unit', f'{k} has lost its unit')
        for op, seed, dt in c['ops']:
            if op == 'gather':
                out = lt.gather()
                compare_table(out, rt, refs, refidx, 'gather')
            elif op in ('array', 'arrayF'):
                extra = [(), (2,), (3, 1), (2, 2)][seed % 4]
                x = fill((ntot,) + extra, dt, seed)
                xl = x[s].copy()
                if op == 'arrayF' and len(extra):
                    xl = np.asfortranarray(xl)
                elif op == 'arrayF':
                    xl = np.repeat(xl, 2)[::2]
                y = lt.gather(xl)
                check(same(y, x), 'gather-array', f'gather of {dt} {x.shape} gives {y}, not {x}')
            elif op == 'unpack':
                for k, v in refs.items():
                    if v is None or k not in rt._special_attributes or k == 'removed':
                        continue
                    if rt.ndim != len(rt.shape) and np.ndim(v) == 0:
                        continue
                    if np.asarray(v).dtype.kind in 'SU' and np.asarray(v).dtype.byteorder == '>':
                        continue
                    a = np.array(getattr(rt_local.all, k))
                    b = np.array(getattr(lt.all, k))
                    check(same(a, b), 'unpack', f'all.{k} is {b} on rank {p}, not {a}')
                removed = np.ones(rt._size_actual, bool)
                removed[refidx] = False
                a = lt.all.removed
                check(same(a.reshape(-1), removed), 'unpack', f'all.removed is {a}, not {removed}')
                check(len(lt.all) == int(np.prod(rt.shape)), 'unpack', 'length of the unpacked table')
                check(not a.flags.writeable, 'unpack', 'all.removed is writeable')
                if c['func'] and 'fun' in refs:
                    check(same(lt.fun2(seed), lt.index + seed), 'function', 'function of a local table')
                    a = np.full(rt._size_actual, -1)
                    a[refidx] = refidx + seed
                    b = lt.all.fun2(seed)
                    check(same(b.reshape(-1), a), 'unpack', f'unpacked function: {b}')
                    b = lt.all.fun1
                    check(not b.flags.writeable, 'unpack', 'an unpacked attribute is writeable')
            elif op == 'again':
                out = lt.gather()
                loc2 = out.scatter(comm)
                check(same(loc2.index, refidx[s]), 'again', f'gathered then scattered: index {loc2.index}, not {refidx[s]}')
                out = loc2.gather()
                compare_table(out, rt, refs, refidx, 'again')
            elif op == 'split':
                n = seed % 4 + 1
                pieces = loc.split(n)
                check(len(pieces) == n, 'split', f'{len(pieces)} pieces instead of {n}')
                check([len(q) for q in pieces] == [q.stop - q.start for q in split(len(lt), n)], 'split',
                      f'{len(lt)} elements are split in {[len(q) for q in pieces]}')
                check(all(type(q) is type(loc) for q in pieces), 'split', 'type of the pieces')
                if inst:
                    check(all(q.name == 'instr' for q in pieces), 'split', 'name of the pieces')
                    check([len(q) for q in loc] == [1] * len(lt), 'split', 'iteration over the detectors')
                    pieces = [q.detector for q in pieces]
                    x = fill(rt._shape_actual, 'f8', seed)
                    y = loc.pack(x)
                    check(same(y, x.reshape(-1)[refidx[s]]), 'pack', 'pack of an instrument')
                    e = np.full(rt._shape_actual, -7.0)
                    e.reshape(-1)[refidx] = x.reshape(-1)[refidx]
                    check(same(loc.unpack(y, missing_value=-7), e), 'unpack', 'unpack of an instrument')
                check(same(np.concatenate([q.index for q in pieces]), refidx[s]), 'split', 'the pieces do not partition')
            elif op == 'write' and P > 1:
                for k, v in refs.items():
                    w = lt.__dict__.get(k)
                    if isinstance(w, np.ndarray) and w.ndim and w.size and k.startswith('a') and k[1:].isdigit() and w.dtype.kind in 'if':
                        old = w.copy()
                        w[...] = 0
                        check(same(value(gt, k), v), 'aliasing', f'writing in the local {k} changed the global table')
                        w[...] = old
            elif op == 'local_slice':
                a, b, st = [[None, 0, 1, 2, -1, -2, 9, -9][(seed >> k) % 8] for k in (0, 3)] + [[1, 2, 3, -1, -2, -3][seed % 6]]
                sl = preselection(dict(c, seed=seed), len(lt), pre=[[a, b, st], 'mask', 'neg', 'pick', [a, b, st]][seed % 5])
                sub = lt[sl]
                if isinstance(sl, list):
                    sl = np.array(sl, int)
                check(same(sub.index, refidx[s][sl]), 'slice', f'index of [{sl}] of a local piece')
                x = fill(rt._shape_actual, 'f8', seed)
                check(same(sub.pack(x), x.reshape(-1)[refidx[s]][sl]), 'pack', f'pack of [{sl}] of a local piece')
                if len(lt):
                    i = seed % len(lt)
                    check(same(lt[i].index, refidx[s][i:i + 1]), 'slice', f'element {i} of a local piece: {lt[i].index}')
                    check(same(lt[i - len(lt)].index, refidx[s][i:i + 1]), 'slice', f'element {i - len(lt)} of a local piece')
                for every in (None, Ellipsis, (), slice(None)):
                    check(same(lt[every].index, refidx[s]), 'slice', f'{every} of a local piece')
            elif op == 'sub_gather':
                # each process keeps a part of its elements
                st = seed % 3 + 1
                parts = [slice((seed >> 4) * q * q % 3, None, st) for q in range(P)]
                sub = lt[parts[p]]
                pos = np.concatenate([np.arange(ntot)[split(ntot, P, q)][parts[q]] for q in range(P)])
                kept = refidx[pos]
                out = sub.gather()
                check(same(out.index, kept), 'sub-gather', f'index {out.index}, not {kept}')
                for k, v in refs.items():
                    if v is not None and np.ndim(v) and np.shape(v)[0] == ntot:
                        x = np.asarray(v)[pos]
                        check(same(getattr(out, k), x), 'sub-gather', f'{k} is {getattr(out, k)}, not {x}')
            elif op == 'alone':
                # pack is a local operation: only one rank calls it
                if p == seed % P:
                    x = fill(rt._shape_actual, 'f8', seed)
                    check(same(lt.pack(x), x.reshape(-1)[refidx[s]]), 'pack', f'pack on rank {p} of {P}')
            elif op == 'loop':
                out = lt.gather()
                # the gathered table is global: using it is up to each rank
                if p == seed % P and np.unique(refidx).size == ntot:
                    x = fill((ntot,), 'f8', seed)
                    y = out.unpack(x)
                    check(same(np.asarray(y).reshape(-1)[refidx], x), 'gathered', 'unpack with the gathered table')
            elif op == 'pack':
                pack(lt, refidx[s], dt, seed)
            elif op == 'unpack_array':
                unpack(lt, s, P, dt, seed)
            elif op == 'setattr':
                set_attributes(lt, s, seed)
            elif op == 'refused':
                refused(lt, P, comm)
            elif op == 'twice':
                for com in (MPI.COMM_WORLD, actual_comm):
                    l2 = g.scatter(com)
                    check(same((l2.detector if inst else l2).index, refidx[split(ntot, com.size, com.rank)]), 'twice',
                          'second scatter of the same table')
            elif op == 'copy' and c['cls'] != 'Scene':  # the operators of a scene cannot be copied
                d = lt.copy()
                check(same(d.index, lt.index) and len(d) == len(lt) and d.comm.size == P, 'copy', 'copy of a table')
                for k in refs:
                    w = d.__dict__.get(k)
                    if isinstance(w, np.ndarray) and w.ndim and w.size:
                        check(same(w, lt.__dict__[k]) and not np.shares_memory(w, lt.__dict__[k]), 'copy', f'copy of {k}')
        return None

    def layouts(x, seed):
        # the same array, in memory
        if seed % 4 == 1:
            return np.asfortranarray(x)
        if seed % 4 == 2:
            return np.repeat(x, 2, axis=0)[::2]
        return x.copy()

    def pack(t, idx, dt, seed):
        import pysimulators as ps

        extra = [(), (2,), (3, 1)][seed % 3]
        x = fill(t._shape_actual + extra, dt, seed)
        want = x.reshape((t._size_actual,) + extra)[idx]
        x = layouts(x, seed >> 2)
        unit = dt in ('f4', 'f8') and seed & 16
        if unit:
            x = ps.Quantity(x, 'K')
        k = {}
        if seed & 32:
            k['copy'] = True
        if seed & 64:
            k['out'] = layouts(np.zeros(want.shape, want.dtype), seed >> 7)
            if unit:
                k['out'] = ps.Quantity(k['out'], 'K')
        y = t.pack(x, **k)
        check(same(y, want), 'pack', f'pack of {dt} {x.shape}, {sorted(k)}: {y}, not {want}')
        if 'out' in k:
            check(y is k['out'], 'pack', 'the output is not the one which is given')
        check(not unit or y.unit == 'K', 'unit', 'the packed array has lost its unit')
        if k:
            check(not np.may_share_memory(x, y) or not x.size, 'pack', 'the packed array is not a copy')

    def unpack(t, sl, P, dt, seed):
        import pysimulators as ps

        extra = [(), (2,), (3, 1)][seed % 3]
        x = fill((ntot,) + extra, dt, seed)
        one = seed & 512 and ntot > 0
        xl = layouts(x[:1] if one else x[sl], seed >> 2)
        if one:
            x = x[:1]
        unit = dt in ('f4', 'f8') and seed & 16
        if unit:
            xl = ps.Quantity(xl, 'K')
        k = {}
        d = np.dtype(dtype_of(dt))
        missing = {'i': -1, 'u': 0, 'f': np.nan, 'c': np.nan, 'b': False, 'S': b'', 'U': '', 'V': (np.nan, -1)}[d.kind]
        if seed & 32 and d.kind in 'ifcubSU':
            k['missing_value'] = missing = {'b': [True, False], 'S': [b'x', b''], 'U': ['x', '']}.get(
                d.kind, [1, 0, 0.0, np.int16(3)])[(seed >> 10) % (2 if d.kind in 'bSU' else 4)]
        want = np.empty(rt._shape_actual + extra, d)
        want[...] = missing
        want.reshape((-1,) + extra)[refidx] = x
        if seed & 64:
            k['out'] = layouts(np.zeros(want.shape, d), seed >> 7)
            if unit:
                k['out'] = ps.Quantity(k['out'], 'K')
        elif seed & 256:
            k['copy'] = True
        y = t.unpack(xl, **k)
        check(same(y, want), 'unpack', f'unpack of {dt} {xl.shape}, {sorted(k)}: {y}, not {want}')
        check(not unit or y.unit == 'K', 'unit', 'the unpacked array has lost its unit')
        if set(k) - {'missing_value'}:
            check(not np.may_share_memory(xl, y) or not xl.size, 'unpack', 'the unpacked array is not a copy')

    def set_attributes(t, sl, seed):
        keys = [f'a{i}' for i, (d, _) in enumerate(c['attrs']) if np.dtype(dtype_of(d)).kind in 'iuf' and f'a{i}' in t.__dict__]
        if not keys:
            return
        k = keys[seed % len(keys)]
        old = t.__dict__[k].copy()
        try:
            new = fill((ntot,), 'f8', seed)
            setattr(t, k, new[sl])
            check(same(getattr(t, k), new[sl]), 'setattr', f'{k} is {getattr(t, k)}, not {new[sl]}')
            out = t.gather()
            check(same(getattr(out, k), new), 'setattr', f'{k} gathered after it is set: {getattr(out, k)}, not {new}')
            try:
                setattr(t, k, np.zeros(len(t) + 1))
            except ValueError:
                pass
            else:
                raise Violation('accepted', f'{len(t) + 1} values for the attribute of {len(t)} elements')
            setattr(t, k, 7)
            check(same(getattr(t, k), np.full(len(t), 7.0)), 'setattr', f'{k} set to a scalar: {getattr(t, k)}')
            check(same(t.index, refidx[sl]), 'setattr', 'index')
            x = fill(t._shape_actual, 'f8', seed + 1)
            setattr(t.all, k, x)
            check(same(getattr(t, k), x.reshape(-1)[refidx[sl]]), 'setattr', f'{k} set unpacked: {getattr(t, k)}')
            x += 1
            check(same(getattr(t, k) + 1, x.reshape(-1)[refidx[sl]]), 'setattr', f'{k} set unpacked is not a copy')
        finally:
            setattr(t, k, old)

    def refused(t, P, comm):
        from pysimulators import PackedTable

        shape = tuple(t._shape_actual)
        n, size = len(t), t._size_actual
        calls = [
            lambda: t.pack(np.zeros((size + 1,))),
            lambda: t.pack(np.zeros(shape), out=np.zeros(n + 1)),
            lambda: t.pack(np.zeros(shape), out=[0.0] * n),
            lambda: setattr(t, 'index', np.arange(n)),
            lambda: setattr(t, 'comm', None),
            lambda: setattr(t.all, 'index', 3),
            lambda: setattr(t.all, 'unknown', 3),
            lambda: t.all.unknown,
            lambda: t['a'],
            lambda: t[::0],
            lambda: setattr(t.all, 'scal', lambda s: 3) if c['scalar'] and c['cls'] != 'Scene' else t['a'],
            lambda: t[np.ones((n + 1,), bool)],
            lambda: t.gather(1, 2),
            lambda: PackedTable((2, 3), ndim=0),
            lambda: PackedTable((2, 3), ndim=3),
            lambda: PackedTable((2, 3), ordering=[1, 2, 3]),
            lambda: PackedTable(3, selection=np.zeros((1, 2), int)),
            lambda: PackedTable(3, selection=np.zeros(3)),
            lambda: PackedTable(3, a=np.zeros(2)),
        ]
        if n > 0 and P == 1:
            calls += [
                lambda: t.unpack(np.zeros(n + 2)),
                lambda: t.unpack(np.zeros(n), out=np.zeros(size + 1)),
                lambda: t.unpack(np.zeros(n), out=[0.0] * size),
            ]
        if t.comm.size > 1:
            calls.append(lambda: t.scatter(comm))
        for i, f in enumerate(calls):
            try:
                f()
            except (ValueError, TypeError, AttributeError):
                continue
            raise Violation('accepted', f'refused call {i}')

    rt_local = rt  # the single process table: all.<k> does not communicate
    w = mpicheck.world(c, ns, body, info)
    mpicheck.succeeded(w)
    info.nontrivial = c['n'] > 1
    info.log(ntot)
    info.probes[c['cls']] += 1
    info.probes['more_ranks_than_elements'] += c['n'] > ntot
    info.probes['empty_table'] += ntot == 0
    for op, *_ in c['ops']:
        info.probes['op_' + op] += 1
    return info


def compare_table(out, rt, refs, refidx, cls):
    check(len(out) == len(rt), cls, f'the gathered table has {len(out)} elements, not {len(rt)}')
    check(out.shape == rt.shape and out.ndim == rt.ndim and type(out) is type(rt), cls, 'shape, ndim or type')
    check(same(out.index, refidx), cls, f'index: {out.index} is not {refidx}')
    for k, v in refs.items():
        w = value(out, k)
        if v is None:
            check(w is None, cls, f'{k} is {w!r}')
        else:
            check(same(v, w), cls, f'{k} is {w}, not {v}')
            check(getattr(v, 'unit', None) == getattr(w, 'unit', None), 'unit', f'{k} has lost its unit')


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for i in range(len(c['attrs'])):
        yield dict(c, attrs=c['attrs'][:i] + c['attrs'][i + 1:])
    if c['n'] > 2:
        yield dict(c, n=c['n'] - 1)
    if c['n'] > 1:
        yield dict(c, n=2)
    if c['comm'] != 'world':
        yield dict(c, comm='world')
    if c['cls'] != 'PackedTable':
        yield dict(c, cls='PackedTable')
    if c['pre'] is not None:
        yield dict(c, pre=None)
    if c['sel'] != 'none':
        yield dict(c, sel='none')
        if 'order' in c['sel'] and len(c['shape']) == 1:
            yield dict(c, sel='order', order=list(range(c['shape'][0])))
    if c['scalar']:
        yield dict(c, scalar=False)
    if c['func']:
        yield dict(c, func=False)
    if c['unit']:
        yield dict(c, unit=False)
    if c['sel'] == 'none':
        for i, s in enumerate(c['shape']):
            if s > 1:
                yield dict(c, shape=c['shape'][:i] + [s - 1] + c['shape'][i + 1:])
        if len(c['shape']) > 1 and c['cls'] in ('PackedTable', 'Layout') and c['ndim'] is None:
            yield dict(c, shape=c['shape'][1:])


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
