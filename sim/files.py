"""
The file seam: opening and removing files of the scratch directory go through here, where
they are scheduling points of the simulated jobs and may fail; disk-full is a limit on the
size of the files of this process, so that native writes meet it too.
"""

import builtins
import errno
import io
import os
import random
import resource
import signal

import numpy as np

from . import mpi

_real_open = builtins.open
_real_remove = os.remove
_real_unlink = os.unlink
_real_listdir = os.listdir
_real_fromfile = np.fromfile


class Files:
    def __init__(self):
        self.root = None
        self.reset()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

    def reset(self):
        self.limit(None)
        self.plan = []      # [kind, countdown, errno, rank or None]
        self.log = []
        self.fired = {}
        self.opened = []
        self.order = None   # seed of the order of the entries of the directories

    def limit(self, nbytes):
        """No file of this process can be made larger than that."""
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard if nbytes is None else nbytes, hard))

    def fail(self, kind, countdown=0, err=errno.EIO, rank=None):
        """The countdown-th 'open', 'create' or 'remove' fails."""
        self.plan.append([kind, countdown, err, rank])

    def _mine(self, path):
        if self.root is None or isinstance(path, int):
            return False
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def event(self, kind, path):
        rank = mpi._world_rank()
        if rank is not None:
            mpi._sim_point('file ' + kind)
        self.log.append((rank, kind, os.path.basename(os.fspath(path))))
        for p in self.plan:
            if p[0] == kind and (p[3] is None or p[3] == rank) and p[1] >= 0:
                p[1] -= 1
                if p[1] < 0:
                    self.fired[kind] = self.fired.get(kind, 0) + 1
                    raise OSError(p[2], os.strerror(p[2]), os.fspath(path))


files = Files.__new__(Files)


def _open(file, mode='r', *args, **keywords):
    if files._mine(file):
        files.event('open' if not set(mode) & set('wxa+') else 'create', file)
    return _real_open(file, mode, *args, **keywords)


def _remove(path, **keywords):
    if files._mine(path):
        files.event('remove', path)
    return _real_remove(path, **keywords)


def _listdir(path='.'):
    out = _real_listdir(path)
    if files.order is not None and files._mine(path):
        random.Random(f'{files.order}:{sorted(map(str, out))}').shuffle(out)
    return out


def _fromfile(file, *args, **keywords):
    """A read error leaves numpy with fewer elements than requested, without an exception."""
    out = _real_fromfile(file, *args, **keywords)
    name = getattr(file, 'name', file)
    if files.plan and files._mine(name) and out.size:
        try:
            files.event('read', name)
        except OSError as e:
            return out[:e.errno % out.size].copy()
    return out


def install():
    files.__init__()
    os.listdir = _listdir
    np.fromfile = _fromfile
    builtins.open = io.open = _open
    os.remove = os.unlink = _remove
    return files
