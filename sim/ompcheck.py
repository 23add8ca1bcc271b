"""
Helpers of the checks which run the OpenMP kernels.

A kernel call is run once on one thread: this is the reference, which is compared with
an independent oracle. It is run again over other contents of the uninitialised memory,
then on a team of threads under several seeded schedules, the first of which also looks
for the program points where threads meet, so that the next ones can preempt there.
"""

import random

import numpy as np

from .core import Info, Violation, run_case  # noqa: F401

MAXTRACE = 4000


def same(a, b, tol=None):
    """None if equal, otherwise what differs."""
    if isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or len(a) != len(b):
            return f'{a!r} instead of {b!r}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return f'output {i}: {d}' if len(b) > 1 else d
        return None
    if b is None or isinstance(b, (str, bool)):
        return None if type(a) is type(b) and a == b else f'{a!r} instead of {b!r}'
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} instead of {b.shape}'
    if a.dtype.names is not None:
        return None if a.dtype == b.dtype and a.tobytes() == b.tobytes() else f'{a!r} instead of {b!r}'
    if a.dtype.kind not in 'fc' or b.dtype.kind not in 'fc' or tol is None:
        ok = (a == b) | ((a != a) & (b != b))
    else:
        with np.errstate(all='ignore'):
            ok = (a == b) | ((a != a) & (b != b)) | (np.abs(a - b) <= tol[1] + tol[0] * np.abs(b))
    if np.all(ok):
        return None
    bad = np.argwhere(~np.atleast_1d(ok))
    k = tuple(bad[0])
    aa, bb = np.atleast_1d(a), np.atleast_1d(b)
    return f'{len(bad)} of {a.size} elements differ; at {tuple(int(i) for i in k)}: {aa[k]!r} instead of {bb[k]!r}'


class Sched:
    def __init__(self, c, ns, info):
        """
        c['sseed']: seed of the schedules, c['T']: number of threads, c['K']: number of
        schedules of each call. When a case is pinned, c['only'] is the label of the run
        which failed and c['plan'] its switches.
        """
        self.c, self.ns, self.info = c, ns, info
        self.ncall = 0
        self.K = c.get('K', 3)
        self.T = c.get('T', 4)

    def _run(self, fn, label, serial, poison, seed, p=0.0, phot=0.0, strategy=None, profile=False, nthreads=None):
        ns, omp = self.ns, self.ns.omp
        strategy = omp.SERIAL if serial else omp.RANDOM if strategy is None else strategy
        plan = self.c.get('plan') if self.c.get('only') == label else None
        if plan is not None:
            strategy, profile = omp.REPLAY, False
            omp.plan([tuple(s) for s in plan])
        omp.config(
            nthreads or (1 if serial else self.T), strategy, seed, p, phot, profile, poison,
            maxsteps=self.c.get('maxsteps', 300_000),
        )
        ns.mem.config(poison, seed, -1, 0)
        try:
            out = fn()
        finally:
            ns.mem.off()
            st = omp.stats()
            self.trace = omp.trace()
            omp.config()
            if plan is not None:
                omp.plan([])
        i = self.info
        if not serial:
            i.stats['steps'] += st['steps']
            i.stats['switches'] += st['switches']
            i.stats['parallel_regions'] += st['regions']
            i.stats['atomic_or_critical'] += st['atomics'] + st['criticals']
            i.stats['conflicting_accesses'] += st['conflicts']
            i.faults['preemption'] += st['preemptions']
            i.faults['blocked_thread'] += st['blocked']
            i.probes['schedules_without_preemption'] += st['switches'] == 0
            i.probes['step_limit'] += st['overflow']
            i.key(st['loghash'], st['regions'], st['steps'])
            if st['maxteam'] > 1 and st['regions']:
                self.team = True
        i.faults['uninitialised_memory'] += bool(poison)
        i.stats['kernel_runs'] += 1
        return out

    def __call__(self, name, fn, oracle=None, tol=None, stol=None, serial_only=False):
        """
        fn() -> array or tuple of arrays, from inputs which it makes or does not alter.
        oracle: expected output, or function of the output which returns what is wrong.
        tol: (relative, absolute) tolerance with respect to the oracle;
        stol: ... of a schedule with respect to the reference (None: bit for bit).
        Exceptions: fn may return Raised(...) for a documented exception.
        """
        k = self.ncall
        self.ncall += 1
        c = self.c
        rng = random.Random(f"{c['sseed']}:{k}")
        poison = [rng.choice([1, 2, 3, 4]) for _ in range(2 + self.K)]
        if poison[1] == poison[0]:
            poison[1] = poison[0] % 4 + 1
        seeds = [rng.getrandbits(63) for _ in range(2 + self.K)]
        self.info.probes['call_' + name] += 1

        def go(what, *a, **kw):
            try:
                return self._run(fn, *a, **kw)
            except Violation:
                raise
            except MemoryError:
                raise
            except Exception as e:
                import traceback

                tb = ''.join(traceback.format_tb(e.__traceback__)[-4:])
                raise Violation('exception:' + name, f'{what}: {type(e).__name__}: {e}\n{tb}')

        ref = go('one thread', f'{k}.s', True, poison[0], seeds[0])
        if oracle is not None:
            d = oracle(ref) if callable(oracle) else same(ref, oracle, tol)
            if d:
                raise Violation('wrong:' + name, d)
        out = go('one thread', f'{k}.u', True, poison[1], seeds[1])
        d = same(out, ref)
        if d:
            raise Violation('uninitialised:' + name, f'the result depends on the contents of uninitialised memory: {d}')
        self._log(ref)
        self.last = ref
        if serial_only:
            return ref
        omp = self.ns.omp
        omp.clear_hot()
        self.team = False
        for j in range(self.K):
            label = f'{k}.{j}'
            p = rng.choice([0.0, 0.002, 0.02, 0.1, 0.4])
            phot = rng.choice([0.05, 0.3, 0.7])
            strategy = omp.PCT if rng.random() < 0.2 else omp.RANDOM
            if c.get('only') not in (None, label):
                continue
            if j == 0:
                out = go('several threads', label, False, poison[2], seeds[2], rng.choice([0.0, 0.05, 0.3]), 0.0, profile=True)
            else:
                out = go('several threads', label, False, poison[2 + j], seeds[2 + j], p, phot, strategy)
            d = same(out, ref, stol)
            if d:
                raise Violation(
                    'schedule:' + name, f'{self.T} threads, {len(self.trace)} switches: {d}',
                    label=label, plan=self.trace[:MAXTRACE],
                )
            if j == 0 and not self.team:
                # nothing runs in parallel there
                break
        return ref

    def _log(self, x):
        if isinstance(x, (tuple, list)):
            for y in x:
                self._log(y)
        elif x is None or isinstance(x, (str, bool)):
            self.info.log(x)
        else:
            self.info.array(x)


def pin(mod):
    def f(case, ns):
        v, _ = run_case(mod, case, ns)
        if v is None or 'plan' not in v.info:
            return None
        return dict(case, only=v.info['label'], plan=[list(s) for s in v.info['plan']])

    return f


def shrink_plan(c):
    """Fewer switches, fewer threads."""
    plan = c.get('plan')
    if plan is None:
        if c.get('K', 3) > 1:
            yield dict(c, K=1)
        return
    if plan:
        yield dict(c, plan=[])
        n = len(plan)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield dict(c, plan=plan[:a] + plan[a + size:])
            if size <= 2 and n > 60:
                break
            size //= 2


def shrink_keys(c, simple):
    """simple: {key: simplest values, in order}"""
    for k, values in simple.items():
        if k not in c:
            continue
        for v in values:
            if c[k] == v:
                break
            yield dict(c, **{k: v})
