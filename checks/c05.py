"""C05: distributing an observation gives every detector of every observation to one process."""

from collections import Counter

import numpy as np

from sim.core import Info, Violation
from sim import mpicheck

PROPERTY = 'C05'
RULE = (
    'A case is a mask of removed detectors, a number of observations, a number of cores per process, and a job of 1-24 '
    'processes, which call the function under a seeded schedule, or one process which calls it for every rank. '
    'Non-trivial: more than one process. Distinct: by the scheduling choices and the sizes.'
)
REAL = ['pysimulators.mpiutils.distribute_observation', 'numpy']
STUB = ['mpi4py (SimMPI)', 'the number of cores (OMP_NUM_THREADS of the simulated process)']
BUDGET = {'quick': (12000, 25), 'thorough': (300000, 900)}


def generate(rng, tier):
    c = {'n': rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24]), 'wseed': rng.getrandbits(32)}
    c['dshape'] = rng.choice([[rng.randint(1, 40)], [rng.randint(1, 9), rng.randint(1, 9)], [2, 3, rng.randint(1, 5)]])
    c['p'] = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    c['nobs'] = rng.choice([0, 1, 1, 2, 3, 5, 9, 17])
    c['cores'] = rng.choice([1, 1, 2, 3, 4, 8, 64])
    c['seed'] = rng.getrandbits(31)
    c['call'] = rng.choice(['world', 'world', 'dup', 'rank'])
    c['kind'] = rng.choice(['list', 'list', 'array', 'tuple'])
    c['view'] = rng.random() < 0.2
    return c


def run(c, ns):
    import os

    info = Info()
    from pyoperators import MPI
    from pysimulators.mpiutils import distribute_observation

    rng = np.random.Generator(np.random.PCG64(c['seed']))
    removed = rng.random(tuple(c['dshape'])) < c['p']
    names = [f'obs{i}' for i in range(c['nobs'])]
    saved = os.environ.get('OMP_NUM_THREADS')
    os.environ['OMP_NUM_THREADS'] = str(c['cores'])
    n = c['n']
    P = n

    def args():
        mask = removed.copy()
        if c['view']:
            mask = np.asfortranarray(mask)
        obs = {'list': list, 'tuple': tuple, 'array': np.array}[c['kind']](names)
        return mask, obs

    def body(rank):
        mask, obs = args()
        if c['call'] == 'rank':
            # one process asks for the others
            out = [distribute_observation(mask, obs, rank=r) for r in range(n)] if rank == c['seed'] % n else None
        else:
            k = {'comm': MPI.COMM_WORLD.Dup()} if c['call'] == 'dup' else {}
            out = distribute_observation(mask, obs, **k)
        if not np.array_equal(mask, removed) or list(obs) != names:
            raise Violation('input', 'the arguments were altered')
        for m, o in out if c['call'] == 'rank' and out else [out] if out else []:
            if np.may_share_memory(m, mask) or o is obs and isinstance(o, list):
                raise Violation('shared', 'what is returned is the argument')
        return out

    try:
        w = mpicheck.world(c, ns, body, info)
        out = mpicheck.succeeded(w)
    finally:
        os.environ['OMP_NUM_THREADS'] = saved
    if c['call'] == 'rank':
        out = out[c['seed'] % n]
    seen = Counter()
    for r, (mask, obs) in enumerate(out):
        mask = np.asarray(mask)
        if mask.shape != removed.shape or mask.dtype != bool:
            raise Violation('mask', f'the mask of process {r} has shape {mask.shape} and dtype {mask.dtype}')
        if [n for n in names if n in list(obs)] != [str(o) for o in obs]:
            raise Violation('order', f'the observations of process {r} are {list(obs)}')
        if np.any(removed & ~mask):
            raise Violation('removed', f'process {r} has a removed detector')
        for d in np.where(~mask.ravel())[0]:
            for o in obs:
                seen[int(d), str(o)] += 1
    expected = {(int(d), o) for d in np.where(~removed.ravel())[0] for o in names}
    lost = expected - set(seen)
    twice = [k for k, v in seen.items() if v > 1]
    if lost:
        raise Violation('lost', f'{len(lost)} of {len(expected)} (detector, observation) are on no process: '
                                f'{sorted(lost)[:5]}; {P} processes of {c["cores"]} cores')
    if twice:
        raise Violation('twice', f'{len(twice)} (detector, observation) are on several processes: {sorted(twice)[:5]}')
    if set(seen) - expected:
        raise Violation('unexpected', f'{sorted(set(seen) - expected)[:5]}')
    # the load is that of the smallest blocks which cover the observations
    ny = max(1, -(-int((~removed).sum()) // c['cores']))
    best = min((x * y for x in range(1, max(c['nobs'], 1) + 1) for y in range(1, ny + 1)
                if -(-c['nobs'] // x) * -(-ny // y) <= n))
    loads = [-(-int((~np.asarray(m)).sum()) // c['cores']) * len(o) for m, o in out]
    if max(loads) > best:
        raise Violation('load', f'a process has {max(loads)} times as many detectors as cores, instead of {best}')
    info.nontrivial = n > 1
    info.key(n, int((~removed).sum()), c['nobs'], c['cores'])
    info.log(sorted(seen.items()))
    info.probes['idle_processes'] += any((~np.asarray(m)).sum() * len(o) == 0 for m, o in out)
    info.probes['no_detector'] += bool(removed.all())
    info.probes['no_observation'] += c['nobs'] == 0
    return info


def shrink(c):
    yield from mpicheck.shrink_choices(c)
    for k, v in (('cores', 1), ('call', 'world'), ('kind', 'list'), ('view', False), ('p', 0.0)):
        if c[k] != v:
            yield dict(c, **{k: v})
    for n in (1, 2, 3, c['n'] - 1):
        if 0 < n < c['n']:
            yield dict(c, n=n)
    if len(c['dshape']) > 1:
        yield dict(c, dshape=[int(np.prod(c['dshape']))])
    elif c['dshape'][0] > 1:
        yield dict(c, dshape=[c['dshape'][0] // 2])
        yield dict(c, dshape=[c['dshape'][0] - 1])
    if c['nobs'] > 0:
        yield dict(c, nobs=c['nobs'] // 2)
        yield dict(c, nobs=c['nobs'] - 1)


def pin(c, ns):
    import sys

    return mpicheck.pin(sys.modules[__name__])(c, ns)
