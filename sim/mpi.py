"""Simulated mpi4py: the communicator runs on the simulated scheduler.

Collectives are matched per rank by sequence number.  Each rank is released as early as the MPI
standard allows or held until everybody has arrived (drawn from the tape); the reduction order is
drawn too.  Data move as raw bytes in memory order, like in MPI.
"""
import pickle
import sys
import types

import numpy as np

from .core import HarnessError
from .world import SimCrash


class MPIException(RuntimeError):
    pass


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return "MPI." + self.name


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: np.maximum(a, b))
MIN = Op("MIN", lambda a, b: np.minimum(a, b))
LOR = Op("LOR", lambda a, b: np.logical_or(a, b))
LAND = Op("LAND", lambda a, b: np.logical_and(a, b))


class _InPlace:
    def __repr__(self):
        return "MPI.IN_PLACE"


IN_PLACE = _InPlace()


class Datatype:
    def __init__(self, name):
        self.name = name


def _buf(spec, writable=False):
    """Flat view of a contiguous buffer argument in memory order (as mpi4py would take it)."""
    if isinstance(spec, (list, tuple)):
        spec = spec[0]
    if spec is None:
        return None
    if not isinstance(spec, (np.ndarray, np.generic)):
        spec = np.asarray(memoryview(spec))
    arr = np.asarray(spec) if isinstance(spec, np.generic) else spec
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if arr.dtype.kind not in "iufcb":
        raise KeyError("%s has no MPI datatype" % arr.dtype)
    if writable and not arr.flags.writeable:
        raise ValueError("buffer source array is read-only")
    return arr


def _raw(arr):
    """Copy of the elements in memory order."""
    order = "C" if arr.flags.c_contiguous else "F"
    return arr.ravel(order=order).copy()


def _store(arr, flat):
    if arr.size == 0:
        return
    order = "C" if arr.flags.c_contiguous else "F"
    if arr.ndim == 0:
        arr[...] = flat[0]
        return
    view = arr.reshape(-1, order=order)
    if not np.shares_memory(view, arr):
        raise HarnessError("reshape copied")
    view[...] = flat


class Coll:
    def __init__(self, kind, root, op):
        self.kind, self.root, self.op = kind, root, op
        self.data = {}
        self.result = None
        self.done = set()
        self.eager = None


class Request:
    def __init__(self, fn=None):
        self._fn, self._val, self._got = fn, None, fn is None

    def wait(self, status=None):
        if not self._got:
            self._val, self._got = self._fn(), True
        return self._val

    Wait = wait

    def test(self):
        return self._got, self._val


class Comm:
    """One communicator.  Rank-side calls find their process through the world."""
    def __init__(self, world, size, index=0, procs=None, parent=None):
        self.world, self.n, self.index = world, size, index
        self.procs = procs if procs is not None else []
        self.colls = []
        self.seq = {}
        self.box = {}
        self.dups = []
        self.dupseq = {}
        self.trace = {}              # rank -> list of collective kinds

    # --- queries
    def _me(self):
        p = self.world.current
        if p is None:
            raise HarnessError("MPI call outside of a simulated process")
        return self.procs.index(p)

    def Get_rank(self):
        return self._me()

    def Get_size(self):
        return self.n

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return "MPI_COMM_WORLD"

    # --- engine
    def _enter(self, kind, root, op, payload):
        w = self.world
        p = w.current
        if p.dead:
            raise SimCrash()
        me = self._me()
        k = self.seq.get(me, 0)
        self.seq[me] = k + 1
        self.trace.setdefault(me, []).append(kind)
        w.yield_point("%s#%d" % (kind, k))
        if k == len(self.colls):
            self.colls.append(Coll(kind, root, op))
        c = self.colls[k]
        w.stats.hit("coll:" + kind)
        opn = op.name if isinstance(op, Op) else op
        copn = c.op.name if isinstance(c.op, Op) else c.op
        if (kind, root, opn) != (c.kind, c.root, copn):
            w.fail("collective-mismatch", "collective number %d: %s calls %s(root=%s, op=%s) where others call "
                   "%s(root=%s, op=%s)" % (k, p.name, kind, root, opn, c.kind, c.root, copn))
        c.data[me] = payload
        return me, k, c

    def _await(self, c, k, need):
        """Block until all ranks in 'need' have contributed."""
        kind = c.kind
        if all(r in c.data for r in need):
            return
        self.world.yield_point("%s#%d" % (kind, k), wait=lambda: all(r in c.data for r in need))

    def _eager(self):
        e = self.world.tape.chance("eager", 1, 2)
        self.world.stats.hit("early_return" if e else "sync_return")
        return e

    def _combine(self, c):
        if c.result is None:
            mode = self.world.tape.draw("redorder", 3)
            ranks = list(range(self.n))
            if mode == 1:
                ranks.reverse()
            elif mode == 2:
                ranks = self.world.tape.perm("redorder", self.n)
            first = c.data[ranks[0]]
            acc = first
            with np.errstate(all="ignore"):
                for r in ranks[1:]:
                    acc = c.op(acc, c.data[r])
            c.result = (acc,)
        return c.result[0]

    def _check_same(self, c, k, what):
        ref = None
        for r in sorted(c.data):
            d = c.data[r]
            sig = (d.dtype.str, d.size)
            if ref is None:
                ref = sig
            elif sig != ref:
                self.world.fail("buffer-mismatch", "%s number %d: rank %d passes %s, another rank passes %s" %
                                (what, k, r, sig, ref))

    # --- buffer collectives
    def Barrier(self):
        me, k, c = self._enter("Barrier", None, None, True)
        self._await(c, k, range(self.n))

    barrier = Barrier

    def Bcast(self, buf, root=0):
        arr = _buf(buf)
        me0 = self._me()
        if me0 != root and not arr.flags.writeable:
            raise ValueError("buffer source array is read-only")
        me, k, c = self._enter("Bcast", root, None, _raw(arr))
        if me == root:
            if not self._eager():
                self._await(c, k, range(self.n))
            self._check_same(c, k, "Bcast")
        else:
            if self._eager():
                self._await(c, k, [root])
            else:
                self._await(c, k, range(self.n))
            self._check_same(c, k, "Bcast")
            _store(arr, c.data[root])

    def _opcheck(self, arr, op):
        if arr.dtype.kind == "b" and op.name in ("SUM", "PROD", "MAX", "MIN"):
            raise MPIException("MPI_ERR_OP: invalid reduce operation")
        if arr.dtype.kind == "c" and op.name in ("MAX", "MIN"):
            raise MPIException("MPI_ERR_OP: invalid reduce operation")

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        me0 = self._me()
        recv = _buf(recvbuf, True) if me0 == root else None
        send = recv if sendbuf is IN_PLACE else _buf(sendbuf)
        if me0 == root and recv is None:
            raise ValueError("message: expecting a receive buffer on root")
        self._opcheck(send, op)
        if me0 == root and (recv.size != send.size or recv.dtype != send.dtype):
            raise ValueError("mismatch in send count %d and receive count %d" % (send.size, recv.size))
        me, k, c = self._enter("Reduce", root, op, _raw(send))
        if me == root:
            self._await(c, k, range(self.n))
            self._check_same(c, k, "Reduce")
            _store(recv, self._combine(c))
        else:
            if not self._eager():
                self._await(c, k, range(self.n))
            self._check_same(c, k, "Reduce")

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        recv = _buf(recvbuf, True)
        send = recv if sendbuf is IN_PLACE else _buf(sendbuf)
        self._opcheck(send, op)
        if recv.size != send.size or recv.dtype != send.dtype:
            raise ValueError("mismatch in send count %d and receive count %d" % (send.size, recv.size))
        me, k, c = self._enter("Allreduce", None, op, _raw(send))
        self._await(c, k, range(self.n))
        self._check_same(c, k, "Allreduce")
        _store(recv, self._combine(c))

    def Allgather(self, sendbuf, recvbuf):
        recv, send = _buf(recvbuf, True), _buf(sendbuf)
        me, k, c = self._enter("Allgather", None, None, _raw(send))
        self._await(c, k, range(self.n))
        self._check_same(c, k, "Allgather")
        flat = np.concatenate([c.data[r] for r in range(self.n)])
        if flat.size != recv.size:
            raise ValueError("mismatch in counts")
        _store(recv, flat.astype(recv.dtype))

    def Gather(self, sendbuf, recvbuf, root=0):
        me0 = self._me()
        recv, send = (_buf(recvbuf, True) if me0 == root else None), _buf(sendbuf)
        me, k, c = self._enter("Gather", root, None, _raw(send))
        if me == root:
            self._await(c, k, range(self.n))
            _store(recv, np.concatenate([c.data[r] for r in range(self.n)]).astype(recv.dtype))
        elif not self._eager():
            self._await(c, k, range(self.n))

    def _counts(self, spec):
        arr, cnt = spec[0], spec[1]
        if isinstance(cnt, (tuple, list)) and len(cnt) == 2 and not np.isscalar(cnt[0]):
            counts, displs = cnt
        else:
            counts, displs = cnt, None
        counts = [int(x) for x in counts]
        if displs is None:
            displs = [sum(counts[:i]) for i in range(len(counts))]
        return _buf(arr, True), counts, [int(x) for x in displs]

    def Allgatherv(self, sendbuf, recvbuf):
        send = _buf(sendbuf)
        recv, counts, displs = self._counts(recvbuf)
        me, k, c = self._enter("Allgatherv", None, None, _raw(send))
        self._await(c, k, range(self.n))
        flat = _raw(recv)
        for r in range(self.n):
            if c.data[r].size != counts[r]:
                self.world.fail("buffer-mismatch", "Allgatherv: rank %d sends %d, expected %d" %
                                (r, c.data[r].size, counts[r]))
            flat[displs[r]:displs[r] + counts[r]] = c.data[r]
        _store(recv, flat)

    def Scatter(self, sendbuf, recvbuf, root=0):
        me0 = self._me()
        recv = _buf(recvbuf, True)
        send = _raw(_buf(sendbuf)) if me0 == root else np.zeros(0)
        me, k, c = self._enter("Scatter", root, None, send)
        self._await(c, k, [root])
        n = c.data[root].size // self.n
        _store(recv, c.data[root][me * n:(me + 1) * n])

    # --- object collectives
    def _obj(self, kind, obj, root, op=None):
        return self._enter(kind, root, op, pickle.dumps(obj, -1))

    def bcast(self, obj=None, root=0):
        me, k, c = self._obj("bcast", obj if self._me() == root else None, root)
        if me != root or not self._eager():
            self._await(c, k, [root] if me != root else range(self.n))
        return obj if me == root else pickle.loads(c.data[root])

    def _reduce_objs(self, c):
        vals = [pickle.loads(c.data[r]) for r in range(self.n)]
        acc = vals[0]
        for v in vals[1:]:
            if isinstance(c.op, Op) and c.op.name in ("MAX", "MIN") and not isinstance(v, np.ndarray):
                acc = max(acc, v) if c.op.name == "MAX" else min(acc, v)
            else:
                acc = c.op(acc, v)
        return acc

    def reduce(self, obj, op=SUM, root=0):
        me, k, c = self._obj("reduce", obj, root, op)
        if me == root:
            self._await(c, k, range(self.n))
            return self._reduce_objs(c)
        if not self._eager():
            self._await(c, k, range(self.n))
        return None

    def allreduce(self, obj, op=SUM):
        me, k, c = self._obj("allreduce", obj, None, op)
        self._await(c, k, range(self.n))
        return self._reduce_objs(c)

    def gather(self, obj, root=0):
        me, k, c = self._obj("gather", obj, root)
        if me == root:
            self._await(c, k, range(self.n))
            return [pickle.loads(c.data[r]) for r in range(self.n)]
        if not self._eager():
            self._await(c, k, range(self.n))
        return None

    def allgather(self, obj):
        me, k, c = self._obj("allgather", obj, None)
        self._await(c, k, range(self.n))
        return [pickle.loads(c.data[r]) for r in range(self.n)]

    def scatter(self, objs, root=0):
        me, k, c = self._obj("scatter", objs if self._me() == root else None, root)
        self._await(c, k, [root])
        return pickle.loads(c.data[root])[me]

    # --- point to point (buffered sends)
    def _send(self, payload, dest, tag):
        me = self._me()
        self.world.yield_point("send")
        self.box.setdefault((me, dest, tag), []).append(payload)

    def _recv(self, source, tag):
        me = self._me()

        def find():
            for (s, d, t), q in sorted(self.box.items(), key=lambda kv: kv[0]):
                if d == me and q and (source < 0 or s == source) and (tag < 0 or t == tag):
                    return (s, d, t)
            return None
        self.world.yield_point("recv(source=%s)" % source, wait=lambda: find() is not None)
        return self.box[find()].pop(0)

    def send(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, -1), dest, tag)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return pickle.loads(self._recv(source, tag))

    def Send(self, buf, dest, tag=0):
        self._send(_raw(_buf(buf)), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        arr = _buf(buf, True)
        d = self._recv(source, tag)
        flat = _raw(arr)
        flat[:d.size] = d
        _store(arr, flat)

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request()

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request()

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(source=source, tag=tag))

    def Irecv(self, buf, source=-1, tag=-1):
        return Request(lambda: self.Recv(buf, source, tag))

    # --- misc
    def Dup(self):
        me = self._me()
        i = self.dupseq.get(me, 0)
        self.dupseq[me] = i + 1
        if i == len(self.dups):
            self.dups.append(Comm(self.world, self.n, self.index, self.procs))
        return self.dups[i]

    def Free(self):
        pass

    def Abort(self, code=1):
        raise SystemExit(code)


class WorldComm:
    """MPI.COMM_WORLD: resolves to the communicator of the running simulated process."""
    def __getattr__(self, name):
        from .world import World
        w = World.current_world
        if w is None or w.current is None:
            # outside of a simulation: a single process of its own
            return getattr(_solo(), name)
        return getattr(w.current.job, name)


class _SoloComm:
    rank, size = 0, 1

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def Barrier(self):
        pass

    barrier = Barrier

    def Bcast(self, buf, root=0):
        _buf(buf)

    def Reduce(self, s, r, op=SUM, root=0):
        _store(_buf(r, True), _raw(_buf(s)))

    def Allreduce(self, s, r, op=SUM):
        if s is not IN_PLACE:
            _store(_buf(r, True), _raw(_buf(s)))

    def bcast(self, obj=None, root=0):
        return obj

    def reduce(self, obj, op=SUM, root=0):
        return obj

    def allreduce(self, obj, op=SUM):
        return obj

    def gather(self, obj, root=0):
        return [obj]

    def allgather(self, obj):
        return [obj]


_solo_inst = _SoloComm()


def _solo():
    return _solo_inst


def install():
    """Puts the simulated mpi4py into sys.modules; must run before tbplas is imported."""
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = WorldComm()
    mpi.COMM_SELF = _solo()
    for op in (SUM, PROD, MAX, MIN, LOR, LAND):
        setattr(mpi, op.name, op)
    mpi.IN_PLACE = IN_PLACE
    mpi.ANY_SOURCE = -1
    mpi.ANY_TAG = -1
    mpi.Exception = MPIException
    for n in ("DOUBLE", "FLOAT", "INT", "LONG", "DOUBLE_COMPLEX", "C_DOUBLE_COMPLEX", "COMPLEX", "INT64_T",
              "INT32_T", "BYTE", "BOOL"):
        setattr(mpi, n, Datatype(n))
    mpi.Comm = mpi.Intracomm = Comm
    import time
    mpi.Wtime = lambda: time.time()
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Init = mpi.Finalize = lambda: None
    m.MPI = mpi
    m.__path__ = []
    m.__version__ = "4.1.2"
    m.rc = types.SimpleNamespace(initialize=True, threads=True)
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi
