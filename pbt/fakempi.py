"""
Stand-in for mpi4py: every rank is a forked process, the parent is the network.

install() puts the stand-in into sys.modules (before tbplas is imported).  run(size, fn) forks `size` ranks, each of which runs fn(rank)
in "MPI" and returns its (picklable) result.  Collectives act on the raw memory of contiguous buffers, as MPI does, so a
mixed-up memory order or size shows.  A collective that not every rank takes part in is reported as a deadlock.
"""
import multiprocessing.connection as mpc
import os
import pickle
import signal
import sys
import time
import traceback
import types

import numpy as np


class Broken(Exception):
    """The ranks did not all finish."""


class _Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


SUM = _Op("sum", lambda a, b: a + b)
PROD = _Op("prod", lambda a, b: a * b)
MAX = _Op("max", np.maximum)
MIN = _Op("min", np.minimum)
IN_PLACE = object()
_OPS = {o.name: o for o in (SUM, PROD, MAX, MIN)}


def _buf(x):
    """The array behind a buffer argument ([data, count, type] or array)."""
    if isinstance(x, (list, tuple)):
        x = x[0]
    if not isinstance(x, np.ndarray):
        x = np.asarray(x)
    if not (x.flags.c_contiguous or x.flags.f_contiguous):
        raise BufferError("ndarray is not contiguous")
    return x


def _mem(x):
    """Flat view of the memory."""
    return x.reshape(-1, order="C" if x.flags.c_contiguous else "F")


class Comm:
    def __init__(self):
        self._rank, self._size, self._conn = 0, 1, None

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def _call(self, kind, root, payload):
        if self._conn is None:
            return [payload]
        self._conn.send_bytes(pickle.dumps(("coll", kind, root, payload)))
        return pickle.loads(self._conn.recv_bytes())

    # ---- buffers
    def _pack(self, x):
        x = _buf(x)
        return (x.dtype.str, _mem(x).copy())

    @staticmethod
    def _fold(parts, op):
        if len({(d, a.size) for d, a in parts}) != 1:
            raise Broken(f"buffers of different kinds are combined: {sorted({(d, a.size) for d, a in parts})}")
        out = parts[0][1]
        for _, a in parts[1:]:
            out = op.fn(out, a)
        return out

    def _store(self, recv, data, what):
        recv = _buf(recv)
        if recv.size != data.size or recv.dtype != data.dtype:
            raise Broken(f"{what}: receive buffer of {recv.size} {recv.dtype} for {data.size} {data.dtype}")
        flat = recv.reshape(-1, order="C" if recv.flags.c_contiguous else "F")
        flat[...] = data

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        parts = self._call(f"Reduce {op.name}", root, self._pack(sendbuf))
        if self._rank == root:
            self._store(recvbuf, self._fold(parts, op), "Reduce")

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        parts = self._call(f"Allreduce {op.name}", None, self._pack(sendbuf))
        self._store(recvbuf, self._fold(parts, op), "Allreduce")

    def Bcast(self, buf, root=0):
        parts = self._call("Bcast", root, self._pack(buf))
        if self._rank != root:
            self._store(buf, parts[root][1], "Bcast")

    def Gather(self, sendbuf, recvbuf, root=0):
        parts = self._call("Gather", root, self._pack(sendbuf))
        if self._rank == root:
            self._store(recvbuf, np.concatenate([a for _, a in parts]), "Gather")

    def Allgather(self, sendbuf, recvbuf):
        parts = self._call("Allgather", None, self._pack(sendbuf))
        self._store(recvbuf, np.concatenate([a for _, a in parts]), "Allgather")

    # ---- objects
    def bcast(self, obj, root=0):
        return self._call("bcast", root, obj)[root]

    def gather(self, obj, root=0):
        parts = self._call("gather", root, obj)
        return parts if self._rank == root else None

    def allgather(self, obj):
        return self._call("allgather", None, obj)

    def reduce(self, obj, op=SUM, root=0):
        parts = self._call(f"reduce {op.name}", root, obj)
        out = parts[0]
        for p in parts[1:]:
            out = op.fn(out, p)
        return out if self._rank == root else None

    def allreduce(self, obj, op=SUM):
        out, *rest = self._call(f"allreduce {op.name}", None, obj)
        for p in rest:
            out = op.fn(out, p)
        return out

    def scatter(self, objs, root=0):
        return self._call("scatter", root, objs)[root][self._rank]

    def Barrier(self):
        self._call("Barrier", None, None)

    barrier = Barrier


COMM_WORLD = Comm()


def install():
    pkg, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    for k, v in dict(COMM_WORLD=COMM_WORLD, SUM=SUM, PROD=PROD, MAX=MAX, MIN=MIN, IN_PLACE=IN_PLACE, Comm=Comm, Intracomm=Comm).items():
        setattr(mpi, k, v)
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi


def run(size, fn, timeout=120.0):
    """[fn(rank) for every rank], run concurrently; raises Broken if a rank fails or the ranks block each other."""
    conns, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for rank in range(size):
            a, b = mpc.Pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    for c in conns:
                        c.close()
                    a.close()
                    COMM_WORLD._rank, COMM_WORLD._size, COMM_WORLD._conn = rank, size, b
                    try:
                        msg = ("done", fn(rank))
                    except BaseException:
                        msg = ("error", traceback.format_exc())
                    b.send_bytes(pickle.dumps(msg))
                    b.close()
                    code = 0
                finally:
                    os._exit(code)
            b.close()
            conns.append(a)
            pids.append(pid)
        return _hub(conns, timeout)
    finally:
        for c in conns:
            c.close()
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)


def _hub(conns, timeout):
    n = len(conns)
    pending, result = {}, {}
    end = time.time() + timeout
    while len(result) < n:
        if len(pending) + len(result) == n:
            if result:
                raise Broken(f"ranks {sorted(pending)} wait in {sorted({p[0] for p in pending.values()})} for ranks {sorted(result)}, which have finished")
            if len({(p[0], p[1]) for p in pending.values()}) != 1:
                raise Broken(f"ranks are in different collectives: {[pending[r][:2] for r in range(n)]}")
            answer = pickle.dumps([pending[r][2] for r in range(n)])
            for c in conns:
                c.send_bytes(answer)
            pending = {}
        wait = [c for r, c in enumerate(conns) if r not in result and r not in pending]
        ready = mpc.wait(wait, timeout=max(0.0, end - time.time()))
        if not ready:
            raise Broken(f"ranks {[r for r in range(n) if r not in result and r not in pending]} do not answer")
        for c in ready:
            r = conns.index(c)
            try:
                msg = pickle.loads(c.recv_bytes())
            except EOFError:
                raise Broken(f"rank {r} ended abnormally")
            if msg[0] == "coll":
                pending[r] = msg[1:]
            elif msg[0] == "done":
                result[r] = msg[1]
            else:
                raise Broken(f"rank {r} failed: {msg[1]}")
    return [result[r] for r in range(n)]
