"""C02: an acquisition distributed over a process grid is the single-process one."""

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C02'
RULE = (
    'A case is an acquisition (detectors with or without a selection, samplings, scene, sparse projection, noise '
    'model), a job size (1-8), a process grid, a partition of the samplings in blocks, a rank-schedule seed and a '
    'sequence of operations (observation, back-projection, normal operator, restrictions before and after the '
    'operator is built, noise, mean pointing, packing, conjugate gradient). Non-trivial: more than one rank or more '
    'than one block. Distinct: by the scheduling and completion choices taken.'
)
REAL = ['pysimulators.acquisitions', 'pysimulators.instruments', 'pysimulators.packedtables', 'pysimulators.sparse',
        'pysimulators.operators.ProjectionOperator', 'pysimulators._flib (recompiled)', 'pyoperators', 'numpy']
STUB = ['mpi4py (SimMPI)', 'OpenMP runtime (SimOMP, one thread here)', 'Instrument.get_operator: an integer-valued '
        'model instrument written for the check']
BUDGET = {'quick': (3000, 45), 'thorough': (200000, 1500)}
ASSUMPTIONS = ['the model is integer valued, so that sums do not depend on their order and equality is exact']


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 6, 8])
    div = [d for d in range(1, n + 1) if n % d == 0]
    c = {'n': n, 'wseed': rng.getrandbits(32), 'seed': rng.getrandbits(31)}
    c['grid'] = rng.choice([None, ['instrument', rng.choice(div)], ['instrument', rng.choice(div)],
                            ['sampling', rng.choice(div)]])
    c['dshape'] = rng.choice([[rng.randint(1, 9)], [rng.randint(1, 4), rng.randint(1, 3)]])
    nd = int(np.prod(c['dshape']))
    c['dmask'] = None
    if rng.random() < 0.4:
        c['dmask'] = [int(rng.random() < 0.7) for _ in range(nd)]
        c['dmask'][rng.randrange(nd)] = 1
    c['order'] = None
    if rng.random() < 0.3:
        c['order'] = list(range(nd))
        rng.shuffle(c['order'])
    c['nsamp'] = rng.randint(1, 20)
    c['nscene'] = rng.randint(1, 8)
    c['ncol'] = rng.randint(1, 3)
    c['dt'] = rng.choice(['f4', 'f8'])
    c['it'] = rng.choice(['i4', 'i8'])
    c['block'] = rng.choice([None, None, ['split', rng.randint(2, 4)], ['nbytes', rng.choice([60, 300, 2000])]])
    c['comm'] = rng.choice(['world', 'world', 'dup', 'default'])
    ops = ['H', 'HT', 'HTH', 'obs', 'noise', 'invntt', 'unpack', 'center', 'cg', 'ri', 'rs', 'ris', 'check_comms',
           'rcolon', 'pair', 'rr', 'rsc', 'rsc', 'refuse', 'blocks', 'both', 'iter']
    c['ops'] = [[rng.choice(ops), rng.getrandbits(16)] for _ in range(rng.randint(2, 6))]
    return c


def model(idets, isamps, c):
    """Index and value of the elements of the projection, of shape (ndet * nsamp, ncol)."""
    h = (np.asarray(idets, int)[:, None, None] * 7919 + np.asarray(isamps, int)[None, :, None] * 104729
         + np.arange(c['ncol']) * 1299709 + c['seed'] * 31) % 1000003
    h = h.reshape(-1, c['ncol'])
    return h % c['nscene'], (h // 7) % 9 - 3


def dense(idets, isamps, c):
    """The reference: the dense matrix (len(idets) * len(isamps), nscene)."""
    j, v = model(idets, isamps, c)
    out = np.zeros((len(j), c['nscene']))
    for k in range(c['ncol']):
        out[np.arange(len(j)), j[:, k]] += v[:, k]
    return out


def setup(ns):
    import pysimulators as ps
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import FSRMatrix

    class SimInstrument(ps.Instrument):
        c = None

        def get_operator(self, sampling, scene):
            c = self.c
            nd, nt = len(self), len(sampling)
            m = FSRMatrix((nd * nt, len(scene)), ncolmax=c['ncol'], dtype=np.dtype(c['dt']),
                          dtype_index=np.dtype(c['it']))
            index, m.data.value = model(self.detector.index, sampling.index, c)
            position = np.full(c['nscene'], -1)
            position[scene.index] = np.arange(len(scene))
            m.data.index = position[index]
            return ProjectionOperator(m, shapein=(len(scene),), shapeout=(nd, nt))

        def get_invntt_operator(self, sampling):
            return ps.Instrument.get_invntt_operator(self, sampling, sigma=1 / np.sqrt(self.detector.index + 1.0))

        def get_noise(self, sampling, out=None, operation=None, **k):
            # a noise which depends on what is simulated, not on who does it
            noise = (self.detector.index[:, None] * 17.0 + sampling.index[None, :] * 3.0) % 23 - 5
            operation(out, noise)
            return out

    ns.SimInstrument = SimInstrument


def check(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def eq(a, b, cls, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Violation(cls, f'{what}: {a.tolist()} is not {b.tolist()}')


def run(c, ns):
    info = Info()
    import operator

    import pysimulators as ps
    from pyoperators import MPI
    from pyoperators.utils import split

    nd = int(np.prod(c['dshape']))
    kw = {}
    if c['dmask'] is not None:
        kw['selection'] = np.array(c['dmask'], bool).reshape(c['dshape'])
    if c['order'] is not None:
        kw['ordering'] = np.array(c['order']).reshape(c['dshape'])

    def make():
        table = ps.PackedTable(tuple(c['dshape']), **kw)
        inst = ns.SimInstrument(table, 'sim')
        inst.c = c
        t = np.arange(c['nsamp'])
        samp = ps.SamplingEquatorial(ra=t * 3.0 + 10, dec=t * 2.0 - 20,
                                     masked=(t * 7 + c['seed']) % 3 == 0 if c['seed'] % 2 else c['seed'] % 10 == 0)
        return inst, samp, ps.Scene(c['nscene'])

    inst0, samp0, scene0 = make()
    gidx = inst0.detector.index.copy()
    ndet, nsamp = len(gidx), c['nsamp']
    A = dense(gidx, np.arange(nsamp), c)
    rng = np.random.Generator(np.random.PCG64(c['seed']))
    x = rng.integers(-9, 10, c['nscene']).astype(c['dt'])
    Y = rng.integers(-9, 10, (ndet, nsamp)).astype(c['dt'])
    ref_y = (A @ x).reshape(ndet, nsamp)
    center_ok = True
    try:
        ref_center = samp0.get_center()
    except ValueError:
        center_ok = False

    g = c['grid']
    P = c['n']
    pi = 1 if g is None else g[1] if g[0] == 'instrument' else P // g[1]
    pt = P // pi

    def body(rank):
        inst, samp, scene = make()
        k = {}
        if g is not None:
            k['nprocs_' + g[0]] = g[1]
        if c['comm'] == 'dup':
            k['comm'] = MPI.COMM_WORLD.Dup()
        elif c['comm'] == 'world':
            k['comm'] = MPI.COMM_WORLD
        b = c['block']
        if b is not None and b[0] == 'nbytes':
            k['max_nbytes'] = b[1]
        if b is not None and b[0] == 'split' and nsamp % pt == 0:
            # a partition of the local samplings
            k['block'] = tuple(split(nsamp // pt, min(b[1], nsamp // pt)))
        acq = ps.Acquisition(inst, samp, scene, **k)
        ci, ct = acq.instrument.comm, acq.sampling.comm
        di = gidx[split(ndet, ci.size, ci.rank)]
        st = np.arange(nsamp)[split(nsamp, ct.size, ct.rank)]
        sd, ss = split(ndet, ci.size, ci.rank), split(nsamp, ct.size, ct.rank)

        def comms(what):
            check(acq.comm.size == P and acq.instrument.comm.size == pi and acq.sampling.comm.size == pt, 'comms',
                  f'{what}: communicators of sizes {acq.comm.size}, {acq.instrument.comm.size}, '
                  f'{acq.sampling.comm.size}, not {P}, {pi}, {pt}')
            eq(acq.instrument.detector.index, di, 'partition', f'{what}: local detectors')
            eq(acq.sampling.index, st, 'partition', f'{what}: local samplings')

        comms('start')
        check(isinstance(acq.block, tuple) and sum(len(acq.sampling[b_]) for b_ in acq.block) == len(st), 'blocks',
              f'the blocks {acq.block} do not partition the {len(st)} samplings')
        for op, seed in c['ops']:
            if op == 'H':
                eq(acq.get_operator()(x), ref_y[sd, ss], 'observation', f'H(x) on rank {rank}')
            elif op == 'HT':
                eq(acq.get_operator().T(Y[sd, ss]), A.T @ Y.ravel(), 'back-projection', f'H.T(y) on rank {rank}')
            elif op in ('HTH', 'cg') and c['block'] is not None and P > 1:
                # pyoperators 1.0.0b1 mixes up the buffers of a sum inside a composition
                eq(acq.get_operator().T(Y[sd, ss]), A.T @ Y.ravel(), 'back-projection', f'H.T(y) on rank {rank}')
            elif op == 'HTH':
                H = acq.get_operator()
                eq((H.T * H)(x), A.T @ (A @ x), 'normal', f'(H.T H)(x) on rank {rank}')
            elif op == 'pair':
                H = acq.get_operator()
                y = H(x)
                eq(H.T(y), A.T @ (A @ x), 'back-projection', f'H.T(H(x)) on rank {rank}')
            elif op == 'obs':
                y = acq.get_observation(x, noiseless=True)
                eq(y, ref_y[sd, ss], 'observation', 'noiseless observation')
                noise = (gidx[:, None] * 17.0 + np.arange(nsamp)[None, :] * 3.0) % 23 - 5
                y = acq.get_observation(x)
                eq(y, (ref_y + noise)[sd, ss], 'observation', 'observation')
                out = np.array(Y[sd, ss], dtype=c['dt'])
                y = acq.get_observation(x, out=out)
                eq(out, (ref_y + noise)[sd, ss], 'observation', 'observation in a buffer')
            elif op == 'noise':
                noise = (gidx[:, None] * 17.0 + np.arange(nsamp)[None, :] * 3.0) % 23 - 5
                out = np.array(Y[sd, ss], dtype=float)
                acq.get_noise(out, operation=operator.iadd)
                eq(out, (Y + noise)[sd, ss], 'noise', 'noise')
            elif op == 'invntt':
                N = acq.get_invntt_operator()
                ref = Y * (gidx[:, None] + 1.0)
                z = N(np.array(Y[sd, ss], float))
                check(np.allclose(z, ref[sd, ss]), 'invntt', f'{z} is not {ref[sd, ss]}')
            elif op == 'unpack':
                if pi == 1 and c['order'] is None and c['dmask'] is None:
                    continue
                u = acq.unpack(Y[sd, ss])
                full = np.full((nd, len(st)), np.nan)
                full[gidx] = Y[:, ss]
                u = np.asarray(u).reshape(nd, len(st))
                check(np.array_equal(u, full, equal_nan=True), 'unpack', f'{u} is not {full}')
                v = full.reshape(tuple(c['dshape']) + (len(st),))
                eq(acq.pack(v), Y[sd, ss], 'pack', 'pack')
                # with keywords
                who = (acq, acq.instrument)[c['seed'] // 2 % 2]
                w = who.unpack(Y[sd, ss], missing_value=-7)
                check(np.array_equal(w, np.where(np.isnan(v), -7, v)), 'unpack', f'missing value: {w} is not {v}')
                out = np.full(v.shape, 5.0)
                w = who.unpack(Y[sd, ss], out=out, missing_value=3)
                check(w is out, 'unpack', 'the output array is not used')
                check(np.array_equal(out, np.where(np.isnan(v), 3, v)), 'unpack', f'output array: {out} is not {v}')
                out = np.full(Y[sd, ss].shape, 5.0)
                w = who.pack(v, out=out)
                check(w is out, 'pack', 'the output array is not used')
                eq(out, Y[sd, ss], 'pack', 'pack into an array')
                w = who.pack(v, copy=True)
                check(not np.may_share_memory(w, v), 'pack', 'a copy shares the memory of the input')
            elif op == 'center':
                if center_ok:
                    z = acq.sampling.get_center()
                    check(np.allclose(z, ref_center, rtol=1e-9, atol=1e-9), 'center',
                          f'mean pointing {z}, not {ref_center}')
                else:
                    try:
                        z = acq.sampling.get_center()
                    except ValueError:
                        pass
                    else:
                        raise Violation('center', f'mean pointing {z} of masked pointings')
            elif op == 'cg':
                from pyoperators import IdentityOperator, pcg

                H = acq.get_operator()
                M = H.T * H + 5 * IdentityOperator(c['nscene'])
                rhs = (A.T @ Y.ravel()).astype(float)
                sol = pcg(M, rhs, tol=1e-9, maxiter=200, disp=False)
                expected = np.linalg.solve(A.T @ A + 5 * np.eye(c['nscene']), rhs)
                scale = max(1.0, np.abs(expected).max())
                tol = 1e-4 if c['dt'] == 'f8' else 3e-2
                check(np.allclose(sol['x'], expected, rtol=tol, atol=tol * scale), 'cg', f"{sol['x']} is not {expected}")
                every = MPI.COMM_WORLD.allgather(np.asarray(sol['x']))
                check(all(np.array_equal(e, every[0]) for e in every), 'cg', 'the solutions of the ranks differ')
            elif op in ('ri', 'rs', 'ris', 'rr'):
                restricted(acq, op, seed, rank, di, st, sd, ss, ci, ct)
                comms('after ' + op)
            elif op == 'rsc':
                restricted_scene(acq, seed, di, st, sd, ss, ct)
                comms('after ' + op)
            elif op == 'rcolon':
                r = acq[[Ellipsis, slice(None), (slice(None), Ellipsis), (slice(None),) * 3][seed % 4]]
                check(r.comm.size == P and r.instrument.comm.size == pi and r.sampling.comm.size == pt, 'comms', 'acq[:]')
                eq(r.get_operator()(x), ref_y[sd, ss], 'observation', 'acq[:]')
            elif op == 'check_comms':
                comms('later')
            elif op == 'refuse':
                refused(acq, seed)
                comms('after refusals')
            elif op == 'both':
                inst2, samp2, scene2 = make()
                a2 = ps.Acquisition(inst2, samp2, scene2, nprocs_instrument=pi, nprocs_sampling=pt, comm=MPI.COMM_WORLD)
                check(a2.instrument.comm.size == pi and a2.sampling.comm.size == pt and a2.comm.size == P, 'comms',
                      f'grid of {pt} x {pi} processes')
                eq(a2.get_operator()(x), ref_y[share(a2)[2:]], 'observation', 'observation, with another acquisition')
            elif op == 'blocks':
                blocks(acq, seed, len(di), len(st))
            elif op == 'iter':
                one = list(acq.instrument)
                check(len(one) == len(di), 'iteration', f'{len(one)} instruments for {len(di)} detectors')
                for i_, d_ in zip(one, di):
                    eq(i_.detector.index, [d_], 'iteration', 'detector of an element of the instrument')
                    y = i_.get_operator(acq.sampling, acq.scene)(x)
                    eq(y, dense([d_], st, c).dot(x)[None, :].reshape(1, len(st)), 'iteration', f'element {d_}')
                check(str(acq).endswith(f'Samplings: {len(st)}') and repr(acq) == str(acq), 'str', str(acq))
        comms('end')
        # as a user puts the observation together
        H = acq.get_operator()
        tod = np.vstack(ci.allgather(np.hstack(ct.allgather(np.asarray(H(x))))))
        eq(tod, ref_y, 'observation', 'gathered observation')
        return None

    def share(a):
        sd, ss = (split(n, k.size, k.rank) for n, k in ((ndet, a.instrument.comm), (nsamp, a.sampling.comm)))
        return len(gidx[sd]), len(range(nsamp)[ss]), sd, ss

    def refused(acq, seed):
        """Arguments which are refused on every process, without communication."""
        inst, samp, scene = make()
        wrong = [
            (TypeError, (inst.detector, samp, scene), {}),
            (TypeError, (inst, inst, scene), {}),
            (TypeError, (inst, samp, samp), {}),
            (TypeError, (inst, samp, None), {}),
            (ValueError, (inst, samp, scene), {'nprocs_sampling': 0}),
            (ValueError, (inst, samp, scene), {'nprocs_sampling': P + 1}),
            (ValueError, (inst, samp, scene), {'nprocs_sampling': -P}),
            (ValueError, (inst, samp, scene), {'nprocs_instrument': 0}),
            (ValueError, (inst, samp, scene), {'nprocs_instrument': P + 1}),
            (ValueError, (inst, samp, scene), {'nprocs_instrument': -1}),
            (ValueError, (inst, samp, scene), {'nprocs_instrument': pi, 'nprocs_sampling': pt + 1}),
            (ValueError, (inst, samp, scene), {'nprocs_instrument': -pi, 'nprocs_sampling': -pt}),
        ]
        for d in (2, 3, 4, 5, 7):
            if d < P and P % d:
                wrong.append((ValueError, (inst, samp, scene), {'nprocs_instrument': d}))
                wrong.append((ValueError, (inst, samp, scene), {'nprocs_sampling': d}))
        if pt == 1:
            wrong += [(TypeError, (inst, samp, scene), {'block': b, 'nprocs_sampling': 1})
                      for b in (slice(0, 1), 3, (3,), [slice(0, 1), None], 'block')]
        # the refusals of the block come after the communicators have been created
        for exc, args, kw_ in wrong if seed % 3 == 0 else wrong[seed % len(wrong) :][:3]:
            try:
                ps.Acquisition(*args, comm=MPI.COMM_WORLD, **kw_)
            except exc:
                continue
            raise Violation('refusal', f'Acquisition({[type(a).__name__ for a in args]}, {kw_}) is not refused')
        for sel in ((slice(None),) * 4, (0, 0, 0, 0)):
            try:
                acq[sel]
            except ValueError:
                continue
            raise Violation('refusal', f'acq[{sel}] is not refused')
        try:
            acq.get_noise(operation=operator.iadd)
        except ValueError:
            pass
        else:
            raise Violation('refusal', 'get_noise without the buffer of its operation is not refused')

    def blocks(acq, seed, nd_, nt_):
        """The blocks of a maximum size."""
        one = np.dtype([('i', c['it']), ('v', c['dt'])]).itemsize * c['ncol']
        total = one * nd_ * nt_
        if c['block'] is None or len(acq.block) == 1:
            check(acq.get_operator_nbytes() == total, 'nbytes', f'{acq.get_operator_nbytes()} bytes, not {total}')
        limits = [total, total - 1, total + 1, total // 2, total // 3, one * nd_, total / 2.5]
        limit = MPI.COMM_WORLD.bcast(limits[seed % len(limits)])
        if limit < 1:
            return
        a2 = ps.Acquisition(*make(), nprocs_instrument=pi, comm=MPI.COMM_WORLD, max_nbytes=limit)
        # its processes may have been reordered
        nd_, nt_, sd, ss = share(a2)
        total = one * nd_ * nt_
        what = f'blocks {a2.block} of {nt_} samplings of {one * nd_} bytes, at most {limit} bytes'
        check(all(isinstance(b, slice) for b in a2.block), 'blocks', what)
        eq([i for b in a2.block for i in range(nt_)[b]], np.arange(nt_), 'blocks', what)
        if total <= limit:
            check(len(a2.block) == 1, 'blocks', what)
        else:
            check(max(len(range(nt_)[b]) for b in a2.block) * one * nd_ < limit + one * nd_, 'blocks', what)
        eq(a2.get_operator()(x), ref_y[sd, ss], 'observation', what)

    def selection(kind, n, seed):
        """An equivalent of the kind of selection, and the selected positions."""
        if n == 0:
            return None
        k = seed % 5
        if k == 0:
            return seed % n, np.array([seed % n])
        if k == 1:
            a = 1 + seed % n
            return slice(0, a), np.arange(a)
        if k == 2:
            m = (np.arange(n) * 13 + seed) % 3 > 0
            return m, np.where(m)[0]
        if k == 3:
            return slice(0, n), np.arange(n)
        a = np.arange(n)[:: 1 + seed % 2]
        return slice(None, None, 1 + seed % 2) if seed % 2 else [int(v) for v in a], a

    def padded(sel, short, n):
        if isinstance(sel[0], np.ndarray) and short != n:
            m = np.zeros(n, bool)
            m[sel[1]] = True
            return m, sel[1]
        return sel

    def restricted(acq, op, seed, rank, di, st, sd, ss, ci, ct):
        # ranks which share a restricted communicator select alike
        seli = selection('i', len(di), seed)
        sels = selection('s', len(st), seed // 5 + 1)
        if op == 'ri' or op == 'rr':
            short = min(ci.allgather(len(di)))
            if short == 0:
                return
            seli = padded(selection('i', short, seed), short, len(di))
            if op == 'rr' and len(seli[1]) == 0:
                return
            r = acq[seli[0]] if not (seed % 5 == 4 and seed % 2) else acq[seli[0], :]
            check(r.instrument.comm.size == 1 and r.sampling.comm.size == ct.size and r.comm.size == ct.size,
                  'comms', f'acq[{seli[0]}]')
            d = di[seli[1]] if not (seed % 5 == 4 and seed % 2) else di[:: 1 + seed % 2]
            eq(r.instrument.detector.index, d, 'restriction', f'detectors of acq[{seli[0]}]')
            B = dense(d, np.arange(nsamp), c)
            yr = (B @ x).reshape(len(d), nsamp)
            if op == 'rr':
                # restrict again
                r2 = r[0]
                check(r2.comm.size == ct.size, 'comms', 'acq[...][0]')
                eq(r2.get_operator()(x), yr[:1, ss], 'restriction', 'observation of acq[...][0]')
            H = r.get_operator()
            eq(H(x), yr[:, ss], 'restriction', f'observation of acq[{seli[0]}]')
            Z = ((np.arange(len(d))[:, None] * 5 + np.arange(nsamp)[None, :]) % 7).astype(c['dt'])
            eq(H.T(Z[:, ss]), B.T @ Z.ravel(), 'restriction', f'back-projection of acq[{seli[0]}]')
        elif op == 'rs':
            short = min(ct.allgather(len(st)))
            if short == 0:
                return
            sels = selection('s', short, seed)
            sels = padded(sels, short, len(st))
            if isinstance(sels[0], slice) and sels[0].stop is None:
                sels = (slice(0, short, sels[0].step), sels[1])
            r = acq[:, sels[0]]
            check(r.sampling.comm.size == 1 and r.instrument.comm.size == ci.size and r.comm.size == ci.size,
                  'comms', f'acq[:, {sels[0]}]')
            s = st[sels[1]]
            eq(r.sampling.index, s, 'restriction', f'samplings of acq[:, {sels[0]}]')
            if c['block'] is not None:
                return
            B = dense(gidx, s, c)
            yr = (B @ x).reshape(ndet, len(s))
            H = r.get_operator()
            eq(H(x), yr[sd], 'restriction', f'observation of acq[:, {sels[0]}]')
            Z = ((np.arange(ndet)[:, None] * 5 + np.arange(len(s))[None, :]) % 7).astype(c['dt'])
            eq(H.T(Z[sd]), B.T @ Z.ravel(), 'restriction', f'back-projection of acq[:, {sels[0]}]')
        else:
            if seli is None or sels is None or len(acq.block) > 1 or len(seli[1]) == 0 or len(sels[1]) == 0:
                return
            r = acq[seli[0], sels[0]]
            check(r.comm.size == 1, 'comms', 'acq[., .]')
            d = di[seli[1]]
            s = st[sels[1]]
            B = dense(d, s, c)
            H = r.get_operator()
            eq(H(x), (B @ x).reshape(len(d), len(s)), 'restriction', f'observation of acq[{seli[0]}, {sels[0]}]')
            Z = ((np.arange(len(d))[:, None] * 5 + np.arange(len(s))[None, :]) % 7).astype(c['dt'])
            eq(H.T(Z), B.T @ Z.ravel(), 'restriction', f'back-projection of acq[{seli[0]}, {sels[0]}]')

    def restricted_scene(acq, seed, di, st, sd, ss, ct):
        # the selection of the scene is that of every rank
        n = c['nscene']
        k = seed % 5
        sel = [slice(0, 1 + seed // 5 % n), slice(seed // 5 % n, None), (np.arange(n) * 13 + seed) % 3 > 0,
               slice(None, None, 2), [int(v) for v in np.arange(n)[:: -1]]][k]
        sc = np.arange(n)[sel]
        if len(sc) == 0:
            return
        A_ = A.reshape(ndet, nsamp, n)[:, :, sc]
        first = None
        if seed // 64 % 3 == 0:
            # with the first detector of every rank, which are no longer distributed
            if min(acq.instrument.comm.allgather(len(di))) == 0:
                return
            r = acq[:1, :, sel]
            check(r.comm.size == ct.size, 'comms', f'acq[:1, :, {sel}]')
            first = [gidx.tolist().index(di[0])]
            A_ = A_[first]
            sd = slice(0, 1)
        else:
            r = acq[..., sel] if seed // 64 % 3 == 1 else acq[:, :, sel]
            check(r.comm.size == P and r.instrument.comm.size == pi and r.sampling.comm.size == pt, 'comms',
                  f'acq[..., {sel}]')
        eq(r.scene.index, sc, 'restriction', f'scene of acq[..., {sel}]')
        check(len(acq.scene) == n, 'restriction', 'the restriction has changed the scene of the acquisition')
        y = A_ @ x[sc]
        H = r.get_operator()
        eq(H(x[sc]), y[sd, ss], 'restriction', f'observation of acq[..., {sel}]')
        Y_ = Y if first is None else Y[first]
        eq(H.T(Y_[sd, ss]), np.tensordot(Y_, A_, 2), 'restriction', f'back-projection of acq[..., {sel}]')

    w = mpicheck.world(c, ns, body, info)
    mpicheck.succeeded(w)
    info.nontrivial = c['n'] > 1 or c['block'] is not None
    info.array(ref_y)
    info.probes[f'grid_{pt}x{pi}'] += 1
    info.probes['more_ranks_than_detectors'] += pi > ndet
    info.probes['more_ranks_than_samplings'] += pt > nsamp
    for op, *_ in c['ops']:
        info.probes['op_' + op] += 1
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for k in ('block', 'dmask', 'order', 'grid'):
        if c[k] is not None:
            yield dict(c, **{k: None})
    if c['comm'] != 'world':
        yield dict(c, comm='world')
    if c['n'] > 1:
        yield dict(c, n=1, grid=None)
        yield dict(c, n=2, grid=None)
        yield dict(c, n=2, grid=['instrument', 2])
    for k in ('nsamp', 'nscene', 'ncol'):
        if c[k] > 1:
            yield dict(c, **{k: c[k] // 2})
            yield dict(c, **{k: c[k] - 1})
    if c['dmask'] is None and c['order'] is None:
        if len(c['dshape']) > 1:
            yield dict(c, dshape=[int(np.prod(c['dshape']))])
        elif c['dshape'][0] > 1:
            yield dict(c, dshape=[c['dshape'][0] - 1])


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
