"""
Bring up the simulated environment in this interpreter: the package is imported from
the working tree of the repository, with the simulated MPI library, the simulated
OpenMP runtime and the simulated allocator behind it.
"""

import ctypes
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True

from . import build as _build  # noqa: E402
from . import files, mpi  # noqa: E402

_state = {}


class _FlibFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != 'pysimulators._flib':
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, str(self.path))
        return importlib.util.spec_from_file_location(name, str(self.path), loader=loader)


class _Stats(ctypes.Structure):
    _fields_ = [
        (k, ctypes.c_uint64)
        for k in 'regions steps switches preemptions blocked hotpcs conflicts loghash '
        'inconflict overflow deadlock maxteam atomics criticals'.split()
    ]

    def as_dict(self):
        return {k: int(getattr(self, k)) for k, _ in self._fields_}


class Switch(ctypes.Structure):
    _fields_ = [
        ('region', ctypes.c_uint32),
        ('tid', ctypes.c_uint16),
        ('next', ctypes.c_uint16),
        ('step', ctypes.c_uint32),
    ]


class OMP:
    """Control of the simulated OpenMP runtime."""

    SERIAL, RANDOM, REPLAY, PCT = 0, 1, 2, 3

    def __init__(self, path):
        self.lib = ctypes.CDLL(str(path))
        f = self.lib.simomp_config
        f.restype = None
        f.argtypes = [
            ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint32,
            ctypes.c_uint32, ctypes.c_int, ctypes.c_int, ctypes.c_uint64,
        ]
        self.lib.simomp_stats.argtypes = [ctypes.POINTER(_Stats)]
        self.lib.simomp_stats.restype = None
        self.lib.simomp_trace.argtypes = [ctypes.POINTER(Switch), ctypes.c_uint32]
        self.lib.simomp_trace.restype = ctypes.c_uint32
        self.lib.simomp_plan.argtypes = [ctypes.POINTER(Switch), ctypes.c_uint32]
        self.lib.simomp_plan.restype = None
        self.lib.simomp_get_hot.restype = ctypes.c_uint32
        self.lib.simomp_get_hot.argtypes = [ctypes.POINTER(ctypes.c_uint64), ctypes.c_uint32]

    def config(self, nthreads=1, strategy=0, seed=0, p=0.0, phot=0.0, profile=False,
               poison=0, maxsteps=400_000):
        self.lib.simomp_config(
            nthreads, strategy, seed & (2**64 - 1), int(p * 65536), int(phot * 65536),
            int(profile), poison, maxsteps,
        )

    def reset(self):
        self.plan([])
        self.lib.simomp_clear_hot()
        self.config()

    def clear_hot(self):
        self.lib.simomp_clear_hot()

    def stats(self):
        s = _Stats()
        self.lib.simomp_stats(ctypes.byref(s))
        return s.as_dict()

    def trace(self):
        n = self.lib.simomp_trace(None, 0)
        a = (Switch * max(n, 1))()
        self.lib.simomp_trace(a, n)
        return [(s.region, s.tid, s.step, s.next) for s in a[:n]]

    def plan(self, switches):
        n = len(switches)
        a = (Switch * max(n, 1))()
        for i, (region, tid, step, nxt) in enumerate(switches):
            a[i].region, a[i].tid, a[i].step, a[i].next = region, tid, step, nxt
        self.lib.simomp_plan(a, n)


class Mem:
    """Control of the simulated allocator (numpy data)."""

    def __init__(self, path):
        spec = importlib.util.spec_from_file_location(
            'simmem', str(path),
            loader=importlib.machinery.ExtensionFileLoader('simmem', str(path)),
        )
        self.m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.m)
        self.m.config(0, 0, -1, 0)
        self.m.install()

    def config(self, mode=0, seed=0, fail_at=-1, min_size=0, nfail=1):
        self.m.config(mode, seed & (2**64 - 1), fail_at, min_size, nfail)

    def off(self):
        self.m.config(0, 0, -1, 0)

    def stats(self):
        counted, failed, poisoned = self.m.stats()
        return {'counted': counted, 'failed': failed, 'poisoned': poisoned}


def boot():
    """Idempotent. Returns a namespace with the seams."""
    if _state:
        return _state['ns']
    out = _build.build()
    repo = _build.REPO
    sys.meta_path[:] = [
        f for f in sys.meta_path if 'editable' not in type(f).__module__.lower()
        and 'mesonpy' not in type(f).__name__.lower()
    ]
    for k in [k for k in sys.modules if k.split('.')[0] in ('pysimulators', 'mpi4py')]:
        del sys.modules[k]
    sys.path[:] = [p for p in sys.path if 'pysimulators' not in p]
    sys.path.insert(0, str(repo / 'src'))
    sys.meta_path.insert(0, _FlibFinder(out / '_flib.so'))
    mpi.install()
    _signals()
    fs = files.install()
    import numpy as np

    mem = Mem(out / 'simmem.so')
    omp = OMP(out / '_flib.so')
    omp.config()
    import warnings

    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import pysimulators
    import pysimulators._flib
    import pyoperators

    if not pysimulators.__file__.startswith(str(repo)):
        raise RuntimeError(f'wrong package: {pysimulators.__file__}')
    if pyoperators.MPI.COMM_WORLD is not mpi.COMM_WORLD:
        raise RuntimeError('the MPI seam is not in place')
    import types

    ns = types.SimpleNamespace(omp=omp, mem=mem, mpi=mpi, np=np, files=fs, repo=repo, pool=_pool())
    ns.isolate = [
        (np.random.get_bit_generator, lambda g: np.random.set_bit_generator(np.random.MT19937(12345) if g is None else g)),
        (lambda: ns.pool._buffers, lambda b: setattr(ns.pool, '_buffers', [] if b is None else b)),
    ]
    _state['ns'] = ns
    return ns


def _signals():
    # a simulated process is a thread: only the main one may set signal handlers
    import signal
    import threading

    real = signal.signal

    def fake(signum, handler):
        if threading.current_thread() is threading.main_thread():
            return real(signum, handler)
        return signal.SIG_DFL

    signal.signal = fake


def _pool():
    import pyoperators.core as core

    for name in ('_pool', 'memory_pool', 'pool'):
        p = getattr(core, name, None)
        if p is not None and hasattr(p, '_buffers'):
            return p
    raise RuntimeError('no memory pool in pyoperators.core')
