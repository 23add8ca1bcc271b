"""
SimMPI: a deterministic, in-process replacement of mpi4py.

The N processes of a simulated job are N parked threads of one Python process.
Exactly one runs at any time; it gives control back to the scheduler at every MPI
call, and a seeded generator decides which rank runs next. Collective operations
are matched in program order on each communicator as the MPI standard requires;
completion is as late or as early as the standard allows (a broadcast root may
leave before anybody has received, ...), again as the generator decides. When no rank
can make progress, the job has deadlocked: the run records it and is aborted. When
ranks of a communicator call different collectives, the run records a mismatch.

The module objects registered as ``mpi4py`` and ``mpi4py.MPI`` are the only transport the
code under test sees.
"""

import itertools
import os
import pickle
import random
import sys
import threading
import types

import numpy as np

IN_PLACE = None  # set below


class SimAbort(BaseException):
    """Raised inside ranks to unwind them after a failed run."""


class MPIError(RuntimeError):
    """What the code under test sees as MPI.Exception."""

    def __init__(self, msg='', ierr=1):
        super().__init__(msg)
        self.ierr = ierr

    def Get_error_code(self):
        return self.ierr

    def Get_error_class(self):
        return self.ierr


_tls = threading.local()
_current = None  # the running world, if any


def _world_rank():
    return getattr(_tls, 'rank', None)


def _sim_point(what):
    """A scheduling point of the calling simulated process, if it is one."""
    if _current is not None and _world_rank() is not None:
        _current.point(what)


# --------------------------------------------------------------------------- ops
class Op:
    def __init__(self, name, func):
        self.name, self.func = name, func

    def __call__(self, a, b):
        return self.func(a, b)

    def __repr__(self):
        return f'<Op {self.name}>'

    def __reduce__(self):
        return (_lookup, (self.name,))

    def __deepcopy__(self, memo):
        return self


SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MIN = Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
MAX = Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
LAND = Op('LAND', lambda a, b: np.logical_and(a, b))
LOR = Op('LOR', lambda a, b: np.logical_or(a, b))
LXOR = Op('LXOR', lambda a, b: np.logical_xor(a, b))
BAND = Op('BAND', lambda a, b: a & b)
BOR = Op('BOR', lambda a, b: a | b)
BXOR = Op('BXOR', lambda a, b: a ^ b)


def _lookup(name):
    return globals()[name]


class _Named:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'

    def __reduce__(self):
        return (_lookup, (self.name,))

    def __deepcopy__(self, memo):
        return self


IN_PLACE = _Named('IN_PLACE')
BOTTOM = _Named('BOTTOM')
INFO_NULL = _Named('INFO_NULL')
UNDEFINED = -32766
ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3


# ----------------------------------------------------------------------- datatypes
class Datatype:
    def __init__(self, name, size, kind=None, sub=None):
        self.name, self.size, self.kind, self.sub = name, size, kind, sub
        self.committed = sub is None
        self.freed = False

    def __repr__(self):
        return f'<Datatype {self.name}>'

    def __hash__(self):
        return id(self)

    def __reduce__(self):
        return (_lookup, (self.name,))

    def __deepcopy__(self, memo):
        return self

    def Get_size(self):
        return self.size

    def Get_extent(self):
        return 0, self.extent

    @property
    def extent(self):
        if self.sub is None:
            return self.size
        base, sizes, subsizes, starts = self.sub
        return base.size * int(np.prod(sizes))

    def Create_subarray(self, sizes, subsizes, starts, order=0):
        sizes, subsizes, starts = (
            [int(_) for _ in x] for x in (sizes, subsizes, starts)
        )
        if not (len(sizes) == len(subsizes) == len(starts)) or not sizes:
            raise ValueError('mismatch in the sizes of the arguments')
        for n, m, s in zip(sizes, subsizes, starts):
            # MPI-3.1, 4.1.3: 1 <= subsizes[i] <= sizes[i], 0 <= starts[i] <= ...
            if n < 1 or m < 1 or m > n or s < 0 or s > n - m:
                raise MPIError('MPI_ERR_ARG: invalid argument of some other kind', 12)
        return Datatype(
            'subarray', self.size * int(np.prod(subsizes)), None, (self, sizes, subsizes, starts)
        )

    def Create_contiguous(self, n):
        return Datatype('contiguous', self.size * n, None, (self, [n], [n], [0]))

    def Commit(self):
        self.committed = True
        return self

    def Free(self):
        if self.sub is None or self.freed:
            raise MPIError('MPI_ERR_TYPE: invalid datatype', 3)
        self.freed = True

    def byte_ranges(self):
        """(offset, length) pairs of the data inside of one extent."""
        base, sizes, subsizes, starts = self.sub
        es = base.size
        last = len(sizes) - 1
        strides = [es] * len(sizes)
        for i in range(last - 1, -1, -1):
            strides[i] = strides[i + 1] * sizes[i + 1]
        out = []
        for idx in itertools.product(*(range(n) for n in subsizes[:-1])):
            off = starts[last] * es + sum(
                (s + i) * st for s, i, st in zip(starts, idx, strides)
            )
            out.append((off, subsizes[last] * es))
        return out


_DT = {}
for _name, _np in [
    ('SIGNED_CHAR', 'i1'), ('CHAR', 'i1'), ('BYTE', 'u1'), ('UNSIGNED_CHAR', 'u1'),
    ('SHORT', 'i2'), ('UNSIGNED_SHORT', 'u2'), ('INT', 'i4'), ('UNSIGNED', 'u4'),
    ('UNSIGNED_INT', 'u4'), ('LONG', 'i8'), ('UNSIGNED_LONG', 'u8'), ('LONG_LONG', 'i8'),
    ('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('REAL', 'f4'), ('DOUBLE_PRECISION', 'f8'),
    ('COMPLEX', 'c8'), ('DOUBLE_COMPLEX', 'c16'), ('C_FLOAT_COMPLEX', 'c8'),
    ('C_DOUBLE_COMPLEX', 'c16'), ('BOOL', 'b1'), ('C_BOOL', 'b1'), ('INT8_T', 'i1'),
    ('INT16_T', 'i2'), ('INT32_T', 'i4'), ('INT64_T', 'i8'), ('UINT8_T', 'u1'),
    ('UINT16_T', 'u2'), ('UINT32_T', 'u4'), ('UINT64_T', 'u8'), ('INTEGER', 'i4'),
    ('INTEGER8', 'i8'), ('REAL4', 'f4'), ('REAL8', 'f8'), ('LOGICAL', 'i4'),
]:
    _DT[_name] = Datatype(_name, np.dtype(_np).itemsize, np.dtype(_np))
globals().update(_DT)
_auto = {}
for _name in ('BYTE', 'INT8_T', 'INT16_T', 'INT32_T', 'INT64_T', 'UINT16_T', 'UINT32_T',
              'UINT64_T', 'FLOAT', 'DOUBLE', 'COMPLEX', 'DOUBLE_COMPLEX', 'C_BOOL'):
    _auto[_DT[_name].kind] = _DT[_name]


class _Buf:
    """A message buffer, resolved as mpi4py does."""

    def __init__(self, spec, vector=False):
        self.counts = self.displs = None
        dt = None
        if isinstance(spec, (list, tuple)):
            spec = list(spec)
            arr = spec[0]
            for extra in spec[1:]:
                if isinstance(extra, Datatype):
                    dt = extra
                elif isinstance(extra, str):
                    dt = _DT[extra]
                elif isinstance(extra, (int, np.integer)):
                    self.counts = [int(extra)]
                elif extra is None:
                    pass
                elif (
                    isinstance(extra, (tuple, list))
                    and len(extra) == 2
                    and not isinstance(extra[0], (int, np.integer))
                ):
                    self.counts = [int(_) for _ in extra[0]]
                    self.displs = [int(_) for _ in extra[1]] if extra[1] is not None else None
                else:
                    self.counts = [int(_) for _ in extra]
        else:
            arr = spec
        if isinstance(arr, (int, float)) or arr is None:
            raise TypeError(f'message: expecting buffer, got {type(arr).__name__}')
        arr = np.asarray(arr) if not isinstance(arr, np.ndarray) else arr
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise BufferError('ndarray is not contiguous')
        if dt is None:
            if arr.dtype not in _auto:
                raise KeyError(arr.dtype.str)
            dt = _auto[arr.dtype]
        self.arr, self.dt = arr, dt
        if dt.size and arr.nbytes % dt.size:
            raise ValueError('message: buffer length is not a multiple of the datatype')
        self.n = arr.nbytes // dt.size

    def data(self):
        """A flat copy of the data, as the datatype sees it."""
        return np.frombuffer(self.arr.tobytes('A'), self.dt.kind).copy()

    def put(self, flat, start=0):
        if not self.arr.flags.writeable:
            raise ValueError('buffer source array is read-only')
        raw = self.arr.reshape(-1, order='A')
        raw = raw.view(np.uint8) if raw.size else raw
        if flat.size == 0:
            return
        b = np.ascontiguousarray(flat).view(np.uint8)
        lo = start * self.dt.size
        if lo + b.size > raw.size:
            raise MPIError('MPI_ERR_TRUNCATE: message truncated', 15)
        raw[lo : lo + b.size] = b


# ----------------------------------------------------------------------- groups
class Group:
    def __init__(self, members, rank):
        self._members = tuple(members)
        self._rank = rank

    size = property(lambda s: len(s._members))
    rank = property(lambda s: s.Get_rank())

    def Get_size(self):
        return len(self._members)

    def Get_rank(self):
        return self._members.index(self._rank) if self._rank in self._members else UNDEFINED

    def Incl(self, ranks):
        ranks = [int(_) for _ in ranks]
        if len(set(ranks)) != len(ranks) or any(
            r < 0 or r >= len(self._members) for r in ranks
        ):
            raise MPIError('MPI_ERR_RANK: invalid rank', 6)
        return Group([self._members[r] for r in ranks], self._rank)

    def Excl(self, ranks):
        ranks = {int(_) for _ in ranks}
        return Group(
            [m for i, m in enumerate(self._members) if i not in ranks], self._rank
        )

    def Range_incl(self, ranges):
        return self.Incl([r for a, b, c in ranges for r in range(a, b + (1 if c > 0 else -1), c)])

    def Free(self):
        pass


class _State:
    """What the members of a communicator share."""

    def __init__(self, world, members, dims=None, periods=None):
        self.world = world
        self.members = tuple(members)
        self.id = world.new_comm_id()
        self.seq = [0] * len(members)
        self.ops = {}
        self.dims, self.periods = dims, periods
        self.freed = set()
        self.mail = {}


class _Inst:
    def __init__(self, kind, key):
        self.kind, self.key = kind, key
        self.contrib = {}
        self.result = None
        self.complete = False
        self.waiting = set()
        self.left = set()
        self.eager = False


class Comm:
    """A communicator, as one rank sees it."""

    def __init__(self, state=None, rank=None, predefined=None):
        self._state, self._rank, self._predefined = state, rank, predefined

    # ------------------------------------------------------------ identity
    def _resolve(self):
        """The shared state and the rank, or None for a communicator of one."""
        if self._predefined == 'COMM_NULL':
            raise MPIError('MPI_ERR_COMM: invalid communicator', 5)
        if self._predefined == 'COMM_SELF':
            return None, 0
        if self._predefined == 'COMM_WORLD':
            r = _world_rank()
            if r is None or _current is None:
                return None, 0
            return _current.world_state, r
        if self._rank in self._state.freed:
            raise MPIError('MPI_ERR_COMM: invalid communicator', 5)
        return self._state, self._rank

    def Get_rank(self):
        return self._resolve()[1]

    def Get_size(self):
        st, _ = self._resolve()
        return 1 if st is None else len(st.members)

    rank = property(Get_rank)
    size = property(Get_size)
    name = property(lambda s: s._predefined or f'comm{s._state.id}')

    def Get_name(self):
        return self.name

    is_intra, is_inter = True, False

    def __eq__(self, other):
        if not isinstance(other, Comm):
            return NotImplemented
        return (self._state, self._predefined) == (other._state, other._predefined)

    def __hash__(self):
        return hash((id(self._state), self._predefined))

    def __bool__(self):
        return self._predefined != 'COMM_NULL'

    def __reduce__(self):
        if self._predefined is None:
            raise ValueError('cannot serialize')
        return (_lookup, (self._predefined,))

    def __deepcopy__(self, memo):
        if self._predefined is None:
            raise ValueError('cannot serialize')
        return self

    def __repr__(self):
        return f'<SimMPI {self._predefined or self._state.id}>'

    # ----------------------------------------------------------- machinery
    def _coll(self, kind, payload, compute, key=None, who='all', root=0):
        """
        Take part in a collective. `compute(contrib)` returns the list of the per-rank
        results once everybody needed has arrived. `who` says on whom this rank depends:
        'all', 'root' (broadcast-like) or 'none' (gather-like, for non roots).
        """
        st, r = self._resolve()
        if st is None:
            return compute({0: payload})[0]
        w = st.world
        w.point(f'{kind}@{st.id}')
        seq = st.seq[r]
        st.seq[r] += 1
        inst = st.ops.get(seq)
        n = len(st.members)
        if inst is None:
            inst = st.ops[seq] = _Inst(kind, key)
            inst.eager = w.decide_eager()
        elif inst.kind != kind or inst.key != key:
            w.mismatch(
                f'rank {r} of comm {st.id} calls {kind}{key or ""} while another rank '
                f'is in {inst.kind}{inst.key or ""}'
            )
        inst.contrib[r] = payload
        w.log(f'arrive {kind}@{st.id}#{seq}', r)

        def ready():
            if len(inst.contrib) == n:
                return True
            if who == 'root' and inst.eager and root in inst.contrib:
                return True
            return who == 'none' and inst.eager

        if not ready():
            w.wait(ready, f'{kind}@{st.id}#{seq}')
        if len(inst.contrib) == n or who == 'root':
            try:
                if not inst.complete:
                    inst.result = compute(inst.contrib)
                    inst.complete = len(inst.contrib) == n or who == 'root'
                out = inst.result[r]
            except SimAbort:
                raise
            except Exception:
                w.point(f'leave {kind}@{st.id}')
                raise
        else:
            out = None
        inst.left.add(r)
        if len(inst.left) == n:
            del st.ops[seq]
        w.point(f'leave {kind}@{st.id}')
        return out

    # --------------------------------------------------- python objects
    @staticmethod
    def _dump(x):
        return pickle.dumps(x, -1)

    def barrier(self):
        self._coll('Barrier', None, lambda c: [None] * len(c))

    Barrier = barrier

    def allgather(self, sendobj=None):
        return self._coll(
            'allgather',
            self._dump(sendobj),
            lambda c: _PerRank(lambda r: [pickle.loads(c[i]) for i in range(len(c))]),
        )

    def gather(self, sendobj=None, root=0):
        st, me = self._resolve()
        return self._coll(
            'gather',
            self._dump(sendobj),
            lambda c: _PerRank(
                lambda r: [pickle.loads(c[i]) for i in range(len(c))] if r == root else None
            ),
            key=root,
            who='all' if me == root else 'none',
            root=root,
        )

    def bcast(self, obj=None, root=0):
        st, me = self._resolve()
        n = self.Get_size()
        if not 0 <= root < n:
            raise MPIError('MPI_ERR_ROOT: invalid root', 7)
        return self._coll(
            'bcast',
            self._dump(obj) if me == root else None,
            lambda c: _PerRank(lambda r: obj if r == root == me else pickle.loads(c[root])),
            key=root,
            who='none' if me == root else 'root',
            root=root,
        ) if me != root else self._bcast_root(obj, root)

    def _bcast_root(self, obj, root):
        self._coll(
            'bcast',
            self._dump(obj),
            lambda c: _PerRank(lambda r: pickle.loads(c[root])),
            key=root,
            who='none',
            root=root,
        )
        return obj

    def scatter(self, sendobj=None, root=0):
        st, me = self._resolve()
        n = self.Get_size()
        if me == root:
            if sendobj is None or len(sendobj) != n:
                raise ValueError(f'expecting {n} items, got {sendobj!r}')
            payload = [self._dump(_) for _ in sendobj]
        else:
            payload = None
        out = self._coll(
            'scatter',
            payload,
            lambda c: _PerRank(lambda r: pickle.loads(c[root][r])),
            key=root,
            who='none' if me == root else 'root',
            root=root,
        )
        return pickle.loads(payload[me]) if me == root else out

    def alltoall(self, sendobj):
        n = self.Get_size()
        if len(sendobj) != n:
            raise ValueError(f'expecting {n} items, got {len(sendobj)}')
        return self._coll(
            'alltoall',
            [self._dump(_) for _ in sendobj],
            lambda c: _PerRank(lambda r: [pickle.loads(c[i][r]) for i in range(len(c))]),
        )

    def _reduce_objs(self, c, op):
        vals = [pickle.loads(c[i]) for i in range(len(c))]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=SUM):
        return self._coll(
            'allreduce',
            self._dump(sendobj),
            lambda c: _PerRank(lambda r: self._reduce_objs(c, op)),
            key=op.name,
        )

    def reduce(self, sendobj, op=SUM, root=0):
        st, me = self._resolve()
        return self._coll(
            'reduce',
            self._dump(sendobj),
            lambda c: _PerRank(lambda r: self._reduce_objs(c, op) if r == root else None),
            key=(op.name, root),
            who='all' if me == root else 'none',
        )

    # ---------------------------------------------------------- buffers
    def _order(self, n):
        st, _ = self._resolve()
        return list(range(n)) if st is None else st.world.reduction_order(n)

    def _red(self, c, op):
        sizes = {(v[0].size, v[1].name) for v in c.values()}
        if len(sizes) > 1:
            # undefined behaviour in MPI: different counts or types in one reduction
            self._violate(f'reduction with inconsistent buffers: {sorted(sizes)}')
        acc = None
        for i in self._order(len(c)):
            acc = c[i][0].copy() if acc is None else op(acc, c[i][0])
        return acc

    def _violate(self, msg):
        st, _ = self._resolve()
        if st is None:
            raise MPIError(msg)
        st.world.mismatch(msg)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        rb = _Buf(recvbuf)
        sb = rb if sendbuf is IN_PLACE else _Buf(sendbuf)
        if sb.n != rb.n:
            raise MPIError('message: mismatch in send count and receive count')
        shared = {}

        def compute(c):
            shared['v'] = self._red(c, op)
            return _PerRank(lambda r: shared['v'])

        res = self._coll('Allreduce', (sb.data(), sb.dt), compute, key=op.name)
        rb.put(res.astype(rb.dt.kind, copy=False))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        st, me = self._resolve()
        sb = _Buf(recvbuf) if sendbuf is IN_PLACE else _Buf(sendbuf)
        res = self._coll(
            'Reduce',
            (sb.data(), sb.dt),
            lambda c: [self._red(c, op)] * len(c),
            key=(op.name, root),
            who='all' if me == root else 'none',
        )
        if me == root:
            _Buf(recvbuf).put(res)

    def Bcast(self, buf, root=0):
        st, me = self._resolve()
        b = _Buf(buf)
        res = self._coll(
            'Bcast',
            b.data() if me == root else None,
            lambda c: _PerRank(lambda r: c[root]),
            key=root,
            who='none' if me == root else 'root',
            root=root,
        )
        if me != root:
            if res.size != b.n:
                self._violate('Bcast with inconsistent counts')
            b.put(res)

    def Allgather(self, sendbuf, recvbuf):
        rb = _Buf(recvbuf)
        n = self.Get_size()
        if rb.n % n:
            raise ValueError('message: buffer is not a multiple of the number of ranks')
        k = rb.n // n
        return self._allgatherv(sendbuf, rb, [k] * n, [i * k for i in range(n)], 'Allgather')

    def Allgatherv(self, sendbuf, recvbuf):
        rb = _Buf(recvbuf)
        n = self.Get_size()
        counts = rb.counts
        if counts is None:
            q, m = divmod(rb.n, n)
            counts = [q + (i < m) for i in range(n)]
        if len(counts) != n:
            raise ValueError(f'message: expecting {n} counts, got {len(counts)}')
        displs = rb.displs
        if displs is None:
            displs = [sum(counts[:i]) for i in range(n)]
        if len(displs) != n:
            raise ValueError(f'message: expecting {n} displs, got {len(displs)}')
        for c, d in zip(counts, displs):
            if c and (d < 0 or d + c > rb.n):
                raise ValueError('message: buffer too small for the requested counts')
        return self._allgatherv(sendbuf, rb, counts, displs, 'Allgatherv')

    def _allgatherv(self, sendbuf, rb, counts, displs, kind):
        st, me = self._resolve()
        if sendbuf is IN_PLACE:
            sb = None
            data = rb.data()[displs[me] : displs[me] + counts[me]]
        else:
            sb = _Buf(sendbuf)
            data = sb.data()
            if sb.counts:
                data = data[: sb.counts[0]]
        c = self._coll(
            kind, data, lambda c: _PerRank(lambda r: [c[i] for i in range(len(c))])
        )
        for i, d in enumerate(c):
            if d.nbytes != counts[i] * rb.dt.size:
                self._violate(
                    f'{kind}: rank {i} sends {d.nbytes} bytes, {counts[i] * rb.dt.size} expected'
                )
            rb.put(d.view(np.uint8).view(rb.dt.kind) if d.size else d, displs[i])

    # ------------------------------------------------------- communicators
    def _make(self, groups_of):
        """Create communicators: groups_of(contrib) -> per-rank list of member ranks."""
        st, me = self._resolve()

        def compute(c):
            return groups_of(c)

        return st, me, compute

    def Dup(self, info=None):
        st, me = self._resolve()
        if st is None:
            return Comm(_State(_solo_world, [0]), 0)
        new = {}

        def compute(c):
            s = new.setdefault('s', _State(st.world, st.members, st.dims, st.periods))
            return [type_(s, r) for r in range(len(c))]

        type_ = type(self)
        return self._coll('Dup', None, compute)

    Clone = Dup

    def Free(self):
        if self._predefined == 'COMM_NULL':
            raise MPIError('MPI_ERR_COMM: invalid communicator', 5)
        if self._predefined is not None:
            raise MPIError('MPI_ERR_COMM: cannot free a predefined communicator', 5)
        st, me = self._resolve()
        if st.world is _solo_world:
            st.freed.add(me)
            return
        if st.world.sync_free:
            self._coll('Comm_free', None, lambda c: [None] * len(c))
        st.freed.add(me)

    def Split(self, color=0, key=0):
        st, me = self._resolve()
        if st is None:
            return COMM_NULL if color == UNDEFINED else self.Dup()

        def compute(c):
            out = [COMM_NULL] * len(c)
            for col in sorted({v[0] for v in c.values() if v[0] != UNDEFINED}):
                mem = sorted(
                    (r for r in c if c[r][0] == col), key=lambda r: (c[r][1], r)
                )
                s = _State(st.world, [st.members[r] for r in mem])
                for i, r in enumerate(mem):
                    out[r] = Intracomm(s, i)
            return out

        return self._coll('Split', (int(color), int(key)), compute)

    def Get_group(self):
        st, me = self._resolve()
        if st is None:
            return Group([0], 0)
        return Group(st.members, st.members[me])

    group = property(Get_group)

    def Create(self, group):
        st, me = self._resolve()
        if st is None:
            return self.Dup() if group.size else COMM_NULL

        def compute(c):
            groups = set(c.values())
            if len(groups) > 1:
                # allowed since MPI-2.2 only for disjoint groups
                for a, b in itertools.combinations(groups, 2):
                    if set(a) & set(b):
                        self._violate('Comm_create with different groups')
            out = [COMM_NULL] * len(c)
            for g in sorted(groups):
                s = _State(st.world, g)
                for i, m in enumerate(g):
                    r = st.members.index(m)
                    if c[r] == g:
                        out[r] = Intracomm(s, i)
            return out

        return self._coll('Comm_create', group._members, compute)

    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [int(_) for _ in dims]
        if periods is None:
            periods = False
        if isinstance(periods, (bool, int)):
            periods = [bool(periods)] * len(dims)
        st, me = self._resolve()
        n = self.Get_size()
        total = int(np.prod(dims))
        if total > n or any(d < 1 for d in dims):
            raise MPIError('MPI_ERR_DIMS: invalid topology dimension', 11)
        if st is None:
            return Cartcomm(_State(_solo_world, [0], dims, periods), 0)

        def compute(c):
            order = list(range(n))
            if reorder:
                order = st.world.cart_order(n)
            mem = order[:total]
            s = _State(st.world, [st.members[r] for r in mem], dims, periods)
            out = [COMM_NULL] * n
            for i, r in enumerate(mem):
                out[r] = Cartcomm(s, i)
            return out

        return self._coll('Cart_create', None, compute, key=(tuple(dims), tuple(periods), bool(reorder)))

    # ------------------------------------------------------ point to point
    def send(self, obj, dest, tag=0):
        st, me = self._resolve()
        if st is None:
            raise MPIError('send to self would block')
        w = st.world
        w.point(f'send@{st.id}')
        box = st.mail.setdefault((me, dest), [])
        item = [tag, self._dump(obj), False]
        box.append(item)
        if not w.decide_eager():
            w.wait(lambda: item[2], f'send@{st.id}')

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        st, me = self._resolve()
        if st is None:
            raise MPIError('recv from self would block')
        w = st.world
        w.point(f'recv@{st.id}')

        def find():
            for s in range(len(st.members)) if source == ANY_SOURCE else [source]:
                for it in st.mail.get((s, me), []):
                    if tag in (ANY_TAG, it[0]):
                        return s, it
            return None

        if find() is None:
            w.wait(lambda: find() is not None, f'recv@{st.id}')
        s, it = find()
        st.mail[(s, me)].remove(it)
        it[2] = True
        return pickle.loads(it[1])

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        st, me = self._resolve()
        st.mail.setdefault((me, dest), []).append([sendtag, self._dump(sendobj), False])
        return self.recv(None, source, recvtag)

    def Abort(self, errorcode=0):
        st, me = self._resolve()
        if st is not None:
            st.world.mismatch('MPI_Abort')
        raise SimAbort('MPI_Abort')

    def py2f(self):
        return 0


class Intracomm(Comm):
    pass


class Cartcomm(Intracomm):
    @property
    def dims(self):
        return list(self._state.dims)

    @property
    def ndim(self):
        return len(self._state.dims)

    dim = ndim

    @property
    def topo(self):
        return list(self._state.dims), [int(p) for p in self._state.periods], self.Get_coords(self.rank)

    def Get_topo(self):
        return self.topo

    @property
    def coords(self):
        return self.Get_coords(self.rank)

    def Get_coords(self, rank):
        return [int(_) for _ in np.unravel_index(rank, self._state.dims)]

    def Get_cart_rank(self, coords):
        return int(np.ravel_multi_index(tuple(coords), self._state.dims))

    def Sub(self, remain_dims):
        st, me = self._resolve()
        dims = st.dims
        if isinstance(remain_dims, bool):
            remain_dims = [remain_dims] * len(dims)
        keep = [bool(_) for _ in remain_dims]
        newdims = [d for d, k in zip(dims, keep) if k]
        newper = [p for p, k in zip(st.periods, keep) if k]
        if st.world is _solo_world:
            return Cartcomm(_State(_solo_world, [0], newdims, newper), 0)

        def compute(c):
            out = [None] * len(c)
            groups = {}
            for r in range(len(c)):
                co = np.unravel_index(r, dims)
                groups.setdefault(tuple(x for x, k in zip(co, keep) if not k), []).append(r)
            for g in sorted(groups):
                s = _State(st.world, [st.members[r] for r in groups[g]], newdims, newper)
                for i, r in enumerate(groups[g]):
                    out[r] = Cartcomm(s, i)
            return out

        return self._coll('Cart_sub', None, compute, key=tuple(keep))


class _PerRank:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, r):
        return self.f(r)


class _Solo:
    """The world of communicators of one process outside of a simulated job."""

    sync_free = False
    _ids = itertools.count(10_000_000)

    def new_comm_id(self):
        return next(self._ids)

    def point(self, what):
        if _current is not None and _world_rank() is not None:
            _current.point(what)

    def log(self, *args):
        pass

    def decide_eager(self):
        return True

    def wait(self, ready, what):
        raise MPIError('deadlock on a communicator of one process')

    def mismatch(self, msg):
        raise MPIError(msg)

    def reduction_order(self, n):
        return list(range(n))


_solo_world = _Solo()
COMM_WORLD = Intracomm(predefined='COMM_WORLD')
COMM_SELF = Intracomm(predefined='COMM_SELF')
COMM_NULL = Comm(predefined='COMM_NULL')

# --------------------------------------------------------------------------- files
MODE_RDONLY, MODE_RDWR, MODE_WRONLY, MODE_CREATE = 2, 8, 4, 1
MODE_EXCL, MODE_DELETE_ON_CLOSE, MODE_UNIQUE_OPEN, MODE_SEQUENTIAL, MODE_APPEND = (
    64, 16, 32, 256, 128,
)
SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2


class File:
    """Collective file access, on real files of the scratch directory."""

    @classmethod
    def Open(cls, comm, filename, amode=MODE_RDONLY, info=INFO_NULL):
        self = cls()
        self._comm = comm
        self._name = os.fspath(filename)
        self._amode = amode
        comm._coll('File_open', self._name, lambda c: [None] * len(c), key=amode)
        st, me = comm._resolve()
        nacc = sum(bool(amode & m) for m in (MODE_RDONLY, MODE_RDWR, MODE_WRONLY))
        if nacc != 1:
            raise MPIError('MPI_ERR_AMODE: invalid amode', 21)
        flags = os.O_RDONLY if amode & MODE_RDONLY else os.O_RDWR
        if amode & MODE_CREATE:
            flags |= os.O_CREAT
        if amode & MODE_EXCL:
            flags |= os.O_EXCL
        try:
            self._fd = os.open(self._name, flags, 0o644)
        except OSError as exc:
            raise MPIError(f'MPI_ERR_NO_SUCH_FILE: {exc}', 42)
        self._disp, self._etype, self._ftype = 0, BYTE_, BYTE_
        self._pos = os.fstat(self._fd).st_size if amode & MODE_APPEND else 0
        return self

    def _st(self):
        return self._comm._resolve()

    def Set_view(self, disp=0, etype=None, filetype=None, datarep='native', info=INFO_NULL):
        etype = etype or BYTE_
        filetype = filetype or etype
        if filetype.sub is not None and (filetype.freed or not filetype.committed):
            raise MPIError('MPI_ERR_TYPE: invalid datatype', 3)
        self._comm._coll('File_set_view', None, lambda c: [None] * len(c), key=(datarep, etype.size))
        if datarep != 'native':
            raise MPIError('unsupported data representation', 43)
        self._disp, self._etype, self._ftype, self._pos = int(disp), etype, filetype, 0

    def _ranges(self, nbytes):
        """File byte ranges, in order, of nbytes of data in the view."""
        ft = self._ftype
        if ft.sub is None:
            yield self._disp + self._pos, nbytes
            return
        ranges = ft.byte_ranges()
        skip = self._pos
        k = 0
        while nbytes > 0:
            for off, n in ranges:
                if skip >= n:
                    skip -= n
                    continue
                off, n, skip = off + skip, n - skip, 0
                n = min(n, nbytes)
                yield self._disp + k * ft.extent + off, n
                nbytes -= n
                if nbytes == 0:
                    return
            k += 1

    def Write_all(self, buf):
        b = _Buf(buf)
        if self._amode & MODE_RDONLY:
            raise MPIError('MPI_ERR_READ_ONLY: file is read-only', 36)
        st, me = self._st()
        w = _solo_world if st is None else st.world
        raw = b.arr.tobytes('A')
        if not self._fits(len(raw)):
            raise MPIError('invalid view', 3)
        self._comm._coll('File_write_all:enter', None, lambda c: [None] * len(c))
        # the library writes in pieces, at its own pace
        p = 0
        for off, n in self._ranges(len(raw)):
            while n:
                m = w.piece(n) if hasattr(w, 'piece') else n
                w.point('pwrite')
                fault = w.write_fault() if hasattr(w, 'write_fault') else None
                if fault is None:
                    try:
                        done = os.pwrite(self._fd, raw[p : p + m], off)
                        if done < m:
                            fault = 'short'
                    except OSError:
                        fault = 'failed'
                elif fault == 'short':
                    os.pwrite(self._fd, raw[p : p + m // 2], off)
                if fault is not None:
                    self._err = MPIError('MPI_ERR_NO_SPACE: no space left on device', 41)
                    break
                p += m
                off += m
                n -= m
            else:
                continue
            break
        self._pos += len(raw)
        self._comm._coll('File_write_all:exit', None, lambda c: [None] * len(c))
        if getattr(self, '_err', None):
            err, self._err = self._err, None
            raise err

    def _fits(self, nbytes):
        return True

    def Write_at_all(self, offset, buf):
        self._pos = int(offset) * self._etype.size
        self.Write_all(buf)

    def Write_at(self, offset, buf):
        b = _Buf(buf)
        st, me = self._st()
        w = _solo_world if st is None else st.world
        w.point('pwrite')
        self._pos = int(offset) * self._etype.size
        raw = b.arr.tobytes('A')
        p = 0
        for off, n in self._ranges(len(raw)):
            os.pwrite(self._fd, raw[p : p + n], off)
            p += n

    def Write(self, buf):
        off = self._pos
        self.Write_at(off // self._etype.size, buf)
        self._pos = off + _Buf(buf).arr.nbytes

    def Read_all(self, buf):
        b = _Buf(buf)
        self._comm._coll('File_read_all', None, lambda c: [None] * len(c))
        raw = b''.join(os.pread(self._fd, n, off) for off, n in self._ranges(b.arr.nbytes))
        b.put(np.frombuffer(raw, np.uint8))

    def Get_size(self):
        return os.fstat(self._fd).st_size

    def Set_size(self, n):
        self._comm._coll('File_set_size', None, lambda c: [None] * len(c), key=int(n))
        os.ftruncate(self._fd, int(n))

    def Preallocate(self, n):
        self._comm._coll('File_preallocate', None, lambda c: [None] * len(c), key=int(n))

    def Sync(self):
        self._comm._coll('File_sync', None, lambda c: [None] * len(c))

    def Close(self):
        self._comm._coll('File_close', None, lambda c: [None] * len(c))
        os.close(self._fd)


BYTE_ = _DT['BYTE']


# --------------------------------------------------------------------------- world
class _Rank:
    def __init__(self, rank):
        self.rank = rank
        self.go = threading.Lock()
        self.go.acquire()
        self.ready = None  # predicate, when blocked
        self.waits_for = None
        self.done = False
        self.exc = None
        self.tb = None
        self.result = None
        self.saved = None
        self.ops = 0


class World:
    """
    One simulated job.

    decisions: the generator of every choice; the choices are also recorded, so that a
    run can be replayed from (and minimised on) its list of choices.
    """

    STEP_CAP = 200_000

    def __init__(self, size, seed, slow=None, sync_free=None, faults=None, choices=None, isolate=()):
        self.size = size
        self.rng = random.Random(f'simmpi:{seed}')
        self.choices = None if choices is None else list(choices)
        self.taken = []
        self.ids = itertools.count(1)
        self.ranks = [_Rank(r) for r in range(size)]
        self.back = threading.Lock()
        self.back.acquire()
        self.world_state = _State(self, list(range(size)))
        self.events = []
        self.failure = None
        self.aborting = False
        self.steps = 0
        self.faults = faults or {}
        self.fault_log = {}
        self.isolate = isolate
        r = random.Random(f'simmpi-knobs:{seed}')
        self.sync_free = r.random() < 0.5 if sync_free is None else sync_free
        # speeds: some ranks are much slower than others in some runs
        self.weights = [1.0] * size
        if slow is None and r.random() < 0.5:
            self.weights = [r.choice([1.0, 1.0, 8.0, 0.02]) for _ in range(size)]
        self.p_eager = r.choice([0.0, 0.5, 1.0])
        self.stats = {'eager': 0, 'late': 0, 'reordered': 0, 'slow_ranks': sum(w < 1 for w in self.weights)}

    # --- choices -------------------------------------------------------------
    def choose(self, kind, n, weights=None):
        """Pick an int in [0, n). 0 is the plainest choice, to which replays shrink."""
        if n <= 1:
            return 0
        if self.choices is not None:
            i = len(self.taken)
            c = self.choices[i] if i < len(self.choices) else 0
            c = c if 0 <= c < n else 0
        elif weights is not None:
            c = self.rng.choices(range(n), weights)[0]
        else:
            c = self.rng.randrange(n)
        self.taken.append(c)
        return c

    def decide_eager(self):
        if self.p_eager in (0.0, 1.0) and self.choices is None:
            c = int(self.p_eager)
            self.taken.append(c)
        else:
            c = self.choose('eager', 2)
        self.stats['eager' if c else 'late'] += 1
        return bool(c)

    def reduction_order(self, n):
        order = list(range(n))
        for i in range(n - 1, 0, -1):
            j = i - self.choose('order', i + 1)
            order[i], order[j] = order[j], order[i]
        return order

    def cart_order(self, n):
        order = self.reduction_order(n)
        if order != list(range(n)):
            self.stats['reordered'] += 1
        return order

    def piece(self, n):
        k = self.choose('piece', 4)
        return n if k == 0 or n < 16 else max(1, n // (2 * k + 1))

    def write_fault(self):
        f = self.faults.get('write')
        if f is None:
            return None
        f['countdown'] -= 1
        if f['countdown'] == -1:
            self.fault_log['short_collective_write'] = self.fault_log.get('short_collective_write', 0) + 1
            return 'short'
        return None

    # --- bookkeeping ------------------------------------------------------------
    def new_comm_id(self):
        return next(self.ids)

    def log(self, what, r=None):
        self.events.append((len(self.events), _world_rank(), what))

    def mismatch(self, msg):
        if self.failure is None:
            self.failure = ('mismatch', msg)
        self.aborting = True
        raise SimAbort(msg)

    # --- called by ranks -------------------------------------------------------
    def _yield(self):
        r = self.ranks[_world_rank()]
        self.back.release()
        r.go.acquire()
        if self.aborting:
            raise SimAbort('aborted')

    def point(self, what):
        self.ranks[_world_rank()].ops += 1
        self._yield()

    def wait(self, ready, what):
        r = self.ranks[_world_rank()]
        r.ready, r.waits_for = ready, what
        while True:
            self._yield()
            if ready():
                break
        r.ready = r.waits_for = None

    # --- scheduler ----------------------------------------------------------------
    def run(self, func):
        """Run func(rank) in every rank."""
        global _current
        if _current is not None:
            raise RuntimeError('a simulated job is already running')
        _current = self

        def main(r):
            _tls.rank = r.rank
            r.go.acquire()
            try:
                if not self.aborting:
                    r.result = func(r.rank)
            except SimAbort:
                pass
            except BaseException as exc:
                r.exc = exc
            finally:
                r.done = True
                self.log('done' if r.exc is None else f'raised {type(r.exc).__name__}')
                _tls.rank = None
                self.back.release()

        threads = [
            threading.Thread(target=main, args=(r,), daemon=True) for r in self.ranks
        ]
        baseline = [(g(), s) for g, s in self.isolate]
        for r in self.ranks:
            r.saved = [None] * len(self.isolate)
        for t in threads:
            t.start()
        try:
            while True:
                live = [r for r in self.ranks if not r.done]
                if not live:
                    break
                if self.aborting:
                    cand = live
                    pick = cand[0]
                else:
                    cand = [r for r in live if r.ready is None or r.ready()]
                    if not cand:
                        self.failure = (
                            'deadlock',
                            '; '.join(
                                f'rank {r.rank} waits in {r.waits_for}' for r in live
                            )
                            + ''.join(
                                f'; rank {r.rank} '
                                + ('finished' if r.exc is None else f'raised {type(r.exc).__name__}: {r.exc}')
                                for r in self.ranks
                                if r.done
                            ),
                        )
                        self.aborting = True
                        continue
                    k = self.choose(
                        'run', len(cand), [self.weights[r.rank] for r in cand]
                    )
                    pick = cand[k]
                self.steps += 1
                if self.steps > self.STEP_CAP and not self.aborting:
                    self.failure = ('livelock', f'no end after {self.steps} steps')
                    self.aborting = True
                    continue
                for i, (get, set_) in enumerate(self.isolate):
                    set_(pick.saved[i])
                pick.go.release()
                self.back.acquire()
                for i, (get, set_) in enumerate(self.isolate):
                    pick.saved[i] = get()
        finally:
            for v, s in baseline:
                s(v)
            _current = None
        for t in threads:
            t.join(20)
        return self

    @property
    def results(self):
        return [r.result for r in self.ranks]

    @property
    def exceptions(self):
        return [r.exc for r in self.ranks]

    def digest(self):
        import hashlib

        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]


# --------------------------------------------------------------------- installation
def Get_processor_name():
    return 'simnode'


def Wtime():
    return 0.0 if _current is None else _current.steps * 1e-6


def Is_initialized():
    return True


def Is_finalized():
    return False


def Get_version():
    return 4, 0


def install():
    """Register this module as mpi4py.MPI. To be called before anything imports it."""
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.__version__ = '4.1.2'
    mpi = types.ModuleType('mpi4py.MPI')
    for k, v in globals().items():
        if not k.startswith('_') and k not in ('World', 'SimAbort', 'install'):
            setattr(mpi, k, v)
    mpi.Exception = MPIError
    pkg.MPI = mpi
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True)
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi
    return mpi
