"""C17: the simulated noise has the requested spectrum."""

import operator

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C17'
RULE = (
    'A case is a noise model (white, noise equivalent power, 1/f, one- or two-sided power spectrum density), an instrument, '
    'samplings, a job of 1-4 processes on a process grid with a partition in blocks, a rank-schedule seed, a seed of the '
    'random generators and a sequence of calls (noise into a new or given array, with or without accumulation, inverse '
    'time-time correlation operator, foldings), some of which fail. Non-trivial: every case. Distinct: by the models, the '
    'sizes, the calls and the scheduling choices.'
)
REAL = ['pysimulators.noises', 'pysimulators.instruments', 'pysimulators.acquisitions', 'pyoperators '
        '(SymmetricBandToeplitzOperator with pyfftw)', 'numpy']
STUB = ['mpi4py (SimMPI)', 'random generator (seeded, one per simulated process)', 'transforms of pysimulators.noises: '
        'numpy.fft instead of pyfftw, whose plans depend on timings']
BUDGET = {'quick': (4000, 35), 'thorough': (200000, 900)}
ASSUMPTIONS = ['the stream of a seeded generator is consumed detector by detector, sample after sample']
KINDS = ['white', 'white', 'whites', 'nep', '1f', '1f', '1f', 'psd1', 'psd1', 'psd2']


class Fault(Exception):
    pass


def generate(rng, tier):
    c = {'n': rng.choice([1, 1, 2, 3, 4]), 'wseed': rng.getrandbits(32), 'seed': rng.getrandbits(31)}
    div = [d for d in range(1, c['n'] + 1) if c['n'] % d == 0]
    c['pi'] = rng.choice(div)
    c['ndet'] = rng.randint(1, 5)
    c['nsamp'] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 21, 32])
    c['period'] = rng.choice([0.2, 1.0, 1.0, 2.5])
    c['kind'] = rng.choice(KINDS)
    c['sigma'] = rng.choice([1.0, 0.3, 4.0])
    c['fknee'] = rng.choice([0.05, 0.3, 2.0])
    c['fslope'] = rng.choice([1, 1, 2, 0.5])
    m = rng.choice([4, 5, 6, 9])
    c['psd'] = [round(rng.uniform(0.5, 9), 2) for _ in range(m)]
    c['bandwidth'] = rng.choice([0.05, 0.1, 0.4])
    c['blocks'] = rng.choice([1, 1, 2, 3])
    ops = ['new', 'new', 'out', 'iadd', 'isub', 'acq', 'acq', 'acqout', 'invntt', 'invntt', 'acqinvntt', 'model', 'fold', 'fail', 'spectrum',
           'refused']
    c['ops'] = [[rng.choice(ops), rng.getrandbits(16)] for _ in range(rng.randint(2, 5))]
    return c


# ------------------------------------------------------------------ reference
def frequencies(n, fs):
    k = np.arange(n)
    return np.minimum(k, n - k) * fs / n


def two_sided(c, n, sigma, zero=False):
    """The two-sided spectrum at the n frequencies. The zero frequency is not specified, if not by a density."""
    fs = 1 / c['period']
    f = frequencies(n, fs)
    if c['kind'] in ('1f', 'white', 'whites', 'nep'):
        fknee = c['fknee'] if c['kind'] == '1f' else 0
        p = np.empty(n)
        p[1:] = sigma**2 * (1 + (fknee / f[1:]) ** c['fslope']) / fs
        p[:1] = np.nan
        return p
    # log-log interpolation of the one-sided spectrum, zero frequency and last one excluded
    one = np.array(c['psd'])
    lx = np.log(np.arange(len(one))[1:-1] * c['bandwidth'])
    ly = np.log(one[1:-1])
    p = np.empty(n)
    p[:1] = one[0]
    for i in range(1, n):
        z = np.log(f[i])
        j = min(max(int(np.searchsorted(lx, z)), 1), len(lx) - 1)
        p[i] = np.exp(ly[j - 1] + (ly[j] - ly[j - 1]) * (z - lx[j - 1]) / (lx[j] - lx[j - 1])) / 2
    return p


def filtered(g, p, fs):
    t = np.fft.fft(g)
    t[0] = 0
    p = np.where(np.isnan(p), 0, p)
    return np.fft.ifft(t * np.sqrt(p)).real * np.sqrt(fs)


def sigmas(c, index):
    if c['kind'] == 'whites':
        return c['sigma'] * (1.0 + np.asarray(index))
    if c['kind'] == 'nep':
        return np.full(len(index), c['sigma'] / np.sqrt(2 * c['period']))
    return np.full(len(index), c['sigma'])


def noise(c, index, n, state):
    """The noise of the detectors of an index, in a block of n samples, from a generator."""
    g = state.standard_normal((len(index), n))
    s = sigmas(c, index)
    if c['kind'] in ('white', 'whites', 'nep'):
        return g * s[:, None]
    p = two_sided(c, n, c['sigma'])
    return np.array([filtered(g_, p, 1 / c['period']) for g_ in g]).reshape(g.shape)


def correlation(c, n, ncorr, sigma):
    size = 2
    while size < n:
        size *= 2
    p = two_sided(c, size, sigma)
    p[0] = p[1]
    r = np.fft.fft(1 / (p / c['period'])).real / size
    return r[: ncorr + 1]


def toeplitz(r, n):
    d = np.abs(np.arange(n)[:, None] - np.arange(n))
    return np.where(d < len(r), np.append(r, np.zeros(n))[d], 0)


# ------------------------------------------------------------------ the run
class FFT:
    """numpy.fft under the interface of pyfftw, with failures."""

    def __init__(self):
        self.fail = -1
        self.nfailed = 0

    def __getattr__(self, name):
        func = getattr(np.fft, name)

        def call(a, *args, planner_effort=None, threads=None, overwrite_input=False, auto_align_input=True,
                 auto_contiguous=True, **k):
            if self.fail == 0:
                self.fail = -1
                self.nfailed += 1
                raise MemoryError('simulated')
            self.fail -= 1
            return func(a, *args, **k)

        return call


def setup(ns):
    import pysimulators as ps
    from pysimulators import noises

    ns.fft = noises.fft = FFT()

    class NoisyInstrument(ps.Instrument):
        def keywords(self):
            # the same arrays are given to all the calls
            if self.given is None:
                self.given = self.model()
            return self.given

        def model(self):
            c = self.c
            if c['kind'] == 'nep':
                return {'nep': c['sigma']}
            if c['kind'] == 'white':
                return {'sigma': c['sigma']}
            if c['kind'] == 'whites':
                return {'sigma': c['sigma'] * (1.0 + self.detector.index)}
            if c['kind'] == '1f':
                return {'sigma': c['sigma'], 'fknee': c['fknee'], 'fslope': c['fslope']}
            one = np.array(c['psd'])
            if c['seed'] % 5 == 0:
                one.flags.writeable = False
            if c['kind'] == 'psd1' and c['seed'] % 5 == 1:
                return {'psd': one.tolist(), 'bandwidth': c['bandwidth']}
            if c['kind'] == 'psd1':
                return {'psd': one, 'bandwidth': c['bandwidth']}
            two = np.concatenate([one[:1], one[1:-1] / 2, one[-1:], one[-2:0:-1] / 2])
            return {'psd': two, 'bandwidth': c['bandwidth'], 'twosided': True}

        def get_operator(self, sampling, scene):
            raise NotImplementedError

        def get_noise(self, sampling, **k):
            return ps.Instrument.get_noise(self, sampling, **self.keywords(), **k)

        def get_invntt_operator(self, sampling):
            return ps.Instrument.get_invntt_operator(
                self, sampling, **self.keywords(), ncorr=self.ncorr, fftw_flag='FFTW_ESTIMATE', nthreads=1)

    ns.NoisyInstrument = NoisyInstrument


def close(a, b, cls, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f'{what}: shape {a.shape} instead of {b.shape}')
    scale = np.abs(b).max(initial=0)
    if not np.allclose(a, b, rtol=1e-8, atol=1e-10 * max(scale, 1e-3)):
        raise Violation(cls, f'{what}: {a.tolist()} is not {b.tolist()}')


def run(c, ns):
    info = Info()
    import pysimulators as ps
    from pyoperators import MPI
    from pyoperators.utils import split

    ndet, nsamp, pi = c['ndet'], c['nsamp'], c['pi']
    pt = c['n'] // pi
    fs = 1 / c['period']
    correlated = c['kind'] in ('1f', 'psd1', 'psd2')
    ns.fft.fail = -1

    def state(seed, rank):
        np.random.seed((seed + 7919 * rank) % 2**31)
        return np.random.RandomState((seed + 7919 * rank) % 2**31)

    def body(rank):
        inst = ns.NoisyInstrument('noisy', ps.PackedTable(ndet))
        inst.c, inst.ncorr, inst.given = c, 1, None
        samp = ps.Sampling(nsamp, period=c['period'])
        ct = nsamp // pt
        k = {}
        if c['blocks'] > 1 and nsamp % pt == 0:
            k['block'] = tuple(split(ct, min(c['blocks'], ct)))
        acq = ps.Acquisition(inst, samp, ps.Scene(3), nprocs_instrument=pi, **k)
        instrument, sampling = acq.instrument, acq.sampling
        index = instrument.detector.index
        nd, nt = len(index), len(sampling)
        if nd == 0 or nt == 0:
            return
        for op, seed in c['ops']:
            rs = state(seed, rank)
            given = instrument.keywords()
            before = [np.array(v) for v in given.values()]
            if op == 'new':
                out = instrument.get_noise(sampling)
                close(out, noise(c, index, nt, rs), 'noise', 'noise')
            elif op in ('out', 'iadd', 'isub'):
                base = np.random.RandomState(seed + 1).random((2 * nd, nt, 2))
                buf = [base[:nd, :, 0].copy(), base[::2, :, 1], np.asfortranarray(base[:nd, :, 0])][seed % 3]
                first = buf.copy()
                e = noise(c, index, nt, rs)
                kw = {} if op == 'out' else {'operation': getattr(operator, op)}
                instrument.get_noise(sampling, out=buf, **kw)
                close(buf, {'out': e, 'iadd': first + e, 'isub': first - e}[op], 'noise', f'noise ({op})')
            elif op in ('acq', 'acqout'):
                e = np.hstack([noise(c, index, len(range(nt)[b]), rs) for b in acq.block])
                if op == 'acq':
                    out = acq.get_noise()
                else:
                    out = np.ones((nd, nt))
                    acq.get_noise(out, operation=operator.iadd)
                    e = e + 1
                close(out, e, 'noise', f'noise of the acquisition, blocks {acq.block}')
            elif op in ('invntt', 'acqinvntt'):
                y = np.random.RandomState(seed).standard_normal((nd, nt))
                whole = op == 'invntt'
                blocks = (slice(0, nt),) if whole else acq.block
                if correlated and min(len(range(nt)[b]) for b in blocks) < 2:
                    continue
                e = np.empty((nd, nt))
                ncorr = seed % min(4, min(len(range(nt)[b]) for b in blocks)) if correlated else 0
                instrument.ncorr = ncorr
                for b in blocks:
                    m = len(range(nt)[b])
                    for i, s in enumerate(sigmas(c, index)):
                        T = toeplitz(correlation(c, m, ncorr, s), m) if correlated else np.eye(m) / s**2
                        e[i, b] = T @ y[i, b]
                N = instrument.get_invntt_operator(sampling) if whole else acq.get_invntt_operator()
                close(N(y), e, 'invntt', f'inverse correlation, ncorr={ncorr}')
                close(N.T(y), e, 'invntt', 'transpose of the inverse correlation')
                close(N(y), e, 'invntt', 'inverse correlation, again')
            elif op == 'model':
                models(seed)
            elif op == 'spectrum':
                spectrum(seed)
            elif op == 'fold':
                folding(seed)
            elif op == 'fail':
                # the transform runs out of memory
                e = noise(c, index, nt, rs)
                out = np.zeros((nd, nt))
                n0 = ns.fft.nfailed
                ns.fft.fail = seed % (2 * nd + 1)
                try:
                    instrument.get_noise(sampling, out=out)
                except MemoryError:
                    info.faults['transform_out_of_memory'] += 1
                else:
                    if ns.fft.nfailed != n0:
                        raise Violation('swallowed', 'a failed transform is not reported')
                    close(out, e, 'noise', 'noise')
                ns.fft.fail = -1
                rs = state(seed, rank)
                close(instrument.get_noise(sampling), noise(c, index, nt, rs), 'noise', 'noise after a failure')
            elif op == 'refused':
                for kw in ({'psd': np.ones(5)}, {'bandwidth': 0.1}, {}, {'sigma': 1.0, 'operation': operator.iadd}):
                    try:
                        ps.Instrument.get_noise(instrument, sampling, **kw)
                    except ValueError:
                        continue
                    raise Violation('accepted', f'noise for {kw}')
                for kw in ({'psd': np.ones(5)}, {'bandwidth': 0.1}, {}):
                    try:
                        ps.Instrument.get_invntt_operator(instrument, sampling, **kw)
                    except ValueError:
                        continue
                    raise Violation('accepted', f'inverse correlation for {kw}')
            for (k_, v), b in zip(given.items(), before):
                if not np.array_equal(v, b):
                    raise Violation('altered', f'{op}: {k_} altered')
            if not isinstance(out := acq.block, tuple):
                raise Violation('altered', str(out))

    def models(seed):
        """The spectra of the model, and a noise made of them."""
        from pysimulators import noises

        n = 1 + seed % 20
        slope = np.array([1.0, 2.0])[: 1 + seed % 2]
        knee = np.array([c['fknee'], 0.1])[: 1 + seed % 2]
        sigma = np.array([c['sigma'], 2.0])[: 1 + seed % 2]
        if seed % 2 == 0:
            slope, knee, sigma = c['fslope'], c['fknee'], c['sigma']
        p = noises._gaussian_psd_1f(n, fs, sigma, knee, slope, twosided=True)
        f = frequencies(n, fs)
        f[0] = np.inf
        e = np.asarray(sigma)[..., None] ** 2 / fs * (1 + (np.asarray(knee)[..., None] / f) ** np.asarray(slope)[..., None])
        close(p, e, 'model', '1/f spectrum')
        one = noises._gaussian_psd_1f(n, fs, sigma, knee, slope)
        e1 = e[..., : n // 2 + 1].copy()
        e1[..., 1: (n + 1) // 2] *= 2
        close(one, e1, 'model', 'one-sided 1/f spectrum')
        g = np.random.RandomState(seed).standard_normal(e.shape)
        e = np.array([filtered(g_, p_, fs) for g_, p_ in zip(g.reshape(-1, n), e.reshape(-1, n))]).reshape(e.shape)
        for spec, two in ((p, True), (one, False)):
            np.random.seed(seed)
            out = np.full(e.shape, 7.0) if seed % 3 == 0 else None
            kept = spec.copy()
            res = noises._gaussian_sample(n, fs, spec, twosided=two, out=out)
            close(res, e, 'sample', f'gaussian sample, twosided={two}')
            if out is not None:
                close(out, e, 'sample', 'gaussian sample into an array')
            if not np.array_equal(kept, spec):
                raise Violation('altered', 'the spectrum is altered')

    def spectrum(seed):
        # the one-sided spectrum of a sampling, written as sums
        from pysimulators import noises

        n = 2 + seed % 11
        x = np.random.RandomState(seed).standard_normal(n)
        f, p = noises._sampling2psd(x if seed % 2 else x.tolist(), fs)
        k = np.arange(n // 2 + 1)
        t = np.array([np.sum(x * np.exp(-2j * np.pi * k_ * np.arange(n) / n)) for k_ in k])
        e = np.abs(t) ** 2 / (n * fs)
        e[1: (n + 1) // 2] *= 2
        e[0] = 0
        close(f, k * fs / n, 'spectrum', f'frequencies of the spectrum of {n} samples')
        close(p, e, 'spectrum', f'spectrum of {n} samples')

    def folding(seed):
        from pysimulators import noises

        n = 1 + seed % 7
        one = np.random.RandomState(seed).random((2, n + 1)[seed % 2:])
        two = np.concatenate([one[..., :1], one[..., 1:-1] / 2, one[..., -1:], one[..., -2:0:-1] / 2], axis=-1)
        close(noises._unfold_psd(one), two, 'fold', 'two-sided spectrum')
        close(noises._fold_psd(two), one, 'fold', 'one-sided spectrum')

    ns.mem.config(1 + c['seed'] % 4, c['seed'], -1, 0)
    try:
        w = mpicheck.world(c, ns, body, info)
    finally:
        ns.mem.off()
        ns.fft.fail = -1
    mpicheck.succeeded(w)
    info.nontrivial = True
    info.key(c['kind'], c['ndet'], c['nsamp'], c['blocks'], c['pi'], [o for o, _ in c['ops']])
    info.faults['uninitialised_memory'] += 1
    info.probes['kind_' + c['kind']] += 1
    info.probes['odd_samples'] += nsamp % 2
    for op, _ in c['ops']:
        info.probes['op_' + op] += 1
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    if c['n'] > 1:
        yield dict(c, n=1, pi=1)
    if c['blocks'] > 1:
        yield dict(c, blocks=1)
    for k in ('ndet', 'nsamp'):
        if c[k] > 1:
            yield dict(c, **{k: c[k] // 2})
            yield dict(c, **{k: c[k] - 1})
    if c['kind'] not in ('white', 'psd1', '1f'):
        yield dict(c, kind='white')


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
