"""Stand-in for mpi4py.MPI.

Every communication call becomes an operation that is handed to a controller:
an in-process one (one rank) or, in a worker process of mc.vmpi, the schedule
explorer. Objects travel pickled, buffers as bytes, as in mpi4py.
"""

import os as _os
import pickle as _pickle
import sys as _sys
import time as _time

import numpy as _np

_here = _os.path.dirname(_os.path.abspath(__file__))
_verif = _os.path.dirname(_os.path.dirname(_os.path.dirname(_here)))
if _verif not in _sys.path:
    _sys.path.append(_verif)
from mc import mpicore as _core  # noqa: E402

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = range(4)
IN_PLACE = "__IN_PLACE__"
BOTTOM = None
SUCCESS = 0


class Exception(RuntimeError):  # noqa: A001
    pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)

    @classmethod
    def Create(cls, function, commute=False):
        return cls("user", function)


def _minloc(a, b):
    return min(a, b)


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", lambda a, b: _np.maximum(a, b) if isinstance(a, _np.ndarray) else max(a, b))
MIN = Op("MIN", lambda a, b: _np.minimum(a, b) if isinstance(a, _np.ndarray) else min(a, b))
LAND = Op("LAND", lambda a, b: _np.logical_and(a, b) if isinstance(a, _np.ndarray) else bool(a) and bool(b))
LOR = Op("LOR", lambda a, b: _np.logical_or(a, b) if isinstance(a, _np.ndarray) else bool(a) or bool(b))
BAND = Op("BAND", lambda a, b: a & b)
BOR = Op("BOR", lambda a, b: a | b)
BXOR = Op("BXOR", lambda a, b: a ^ b)
MINLOC = Op("MINLOC", min)
MAXLOC = Op("MAXLOC", max)


class Datatype:
    def __init__(self, name, dtype):
        self.name, self.dtype = name, _np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize

    @property
    def size(self):
        return self.dtype.itemsize


DOUBLE = Datatype("DOUBLE", "f8")
FLOAT = Datatype("FLOAT", "f4")
COMPLEX = Datatype("COMPLEX", "c8")
C_DOUBLE_COMPLEX = DOUBLE_COMPLEX = COMPLEX16 = C_COMPLEX16 = Datatype("DOUBLE_COMPLEX", "c16")
INT = INT32_T = Datatype("INT", "i4")
LONG = INT64_T = LONG_LONG = Datatype("LONG", "i8")
BYTE = CHAR = UNSIGNED_CHAR = Datatype("BYTE", "u1")
BOOL = C_BOOL = Datatype("BOOL", "?")


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count // (datatype.size if datatype is not None else 1)

    def Get_elements(self, datatype):
        return self.Get_count(datatype)

    def _set(self, src, tag, n):
        self.source, self.tag, self.count = src, tag, n


def _buf(spec):
    """ndarray view of a buffer specification."""
    count = None
    if isinstance(spec, (tuple, list)):
        arr = spec[0]
        for x in spec[1:]:
            if isinstance(x, int):
                count = x
    else:
        arr = spec
    if not isinstance(arr, _np.ndarray):
        arr = _np.frombuffer(arr, dtype="u1") if isinstance(arr, (bytes, bytearray, memoryview)) else _np.asarray(arr)
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if count is not None:
        arr = arr.reshape(-1)[:count]
    return arr


def _bytes(arr):
    arr = _buf(arr)
    return (arr.dtype.str, arr.reshape(-1, order="A").tobytes())


def _fill(arr, data, exact=False):
    arr = _buf(arr)
    dt, raw = data
    if len(raw) > arr.nbytes or (exact and len(raw) != arr.nbytes):
        raise Exception("MPI_ERR_TRUNCATE: message truncated")
    if _np.dtype(dt) != arr.dtype and len(raw) and arr.dtype != _np.dtype("u1"):
        raise Exception("buffer datatypes do not match: %s and %s" % (dt, arr.dtype.str))
    src = _np.frombuffer(raw, dtype=arr.dtype)
    arr.reshape(-1, order="A")[: len(src)] = src


def _arr(data):
    return _np.frombuffer(data[1], dtype=_np.dtype(data[0])).copy()


def _spoil(arr):
    """Content of a buffer whose receive has been started is undefined until its completion."""
    arr = _buf(arr)
    if arr.dtype.kind in "fc":
        arr[...] = _np.nan
    else:
        arr.reshape(-1, order="A").view("u1")[...] = 0x5A


_dumps = lambda o: _pickle.dumps(o, protocol=_pickle.HIGHEST_PROTOCOL)  # noqa: E731
_loads = _pickle.loads


class Request:
    def __init__(self, comm, rid, finish=None, watch=None):
        """watch: the buffer being sent, which must not change before completion (other ranks may see the change)."""
        self._comm, self._rid, self._finish, self._done, self._value = comm, rid, finish, False, None
        if watch is not None and rid is not None:
            self._watch, self._last = watch, _bytes(watch)
            _watched().append(self)

    def _complete(self, res, status=None):
        if not self._done:
            self._done = True
            if self in _watched():
                _watched().remove(self)
            self._value = self._finish(res, status) if self._finish else None
        return self._value

    def wait(self, status=None):
        if self._done or self._rid is None:
            return self._value
        return self._complete(_call(("wait", self._rid)), status)

    def test(self, status=None):
        if self._done or self._rid is None:
            return (True, self._value)
        flag, res = _call(("test", self._rid))
        if flag:
            return (True, self._complete(res, status))
        return (False, None)

    def Wait(self, status=None):
        self.wait(status)
        return True

    def Test(self, status=None):
        return self.test(status)[0]

    def Free(self):
        pass

    def Cancel(self):
        pass

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    @classmethod
    def waitany(cls, requests, status=None):
        for i, r in enumerate(requests):
            if not r._done:
                return i, r.wait(status)
        return UNDEFINED, None

    Waitany = classmethod(lambda cls, requests, status=None: cls.waitany(requests, status)[0])


REQUEST_NULL = Request(None, None)


class Comm:
    def __init__(self, cid=0, group=None):
        self._cid, self._group = cid, group

    # -- who am I
    def _g(self):
        return self._group if self._group is not None else list(range(_core.client.size))

    @property
    def rank(self):
        return self._g().index(_core.client.rank)

    @property
    def size(self):
        return len(self._g())

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    @property
    def name(self):
        return "MPI_COMM_WORLD"

    Get_name = lambda self: self.name  # noqa: E731
    Is_inter = Is_intra = lambda self: False  # noqa: E731
    is_inter, is_intra = False, True

    def _peer(self, r):
        if r in (ANY_SOURCE, PROC_NULL):
            return r
        g = self._g()
        if not isinstance(r, (int, _np.integer)) or not 0 <= r < len(g):
            raise Exception("MPI_ERR_RANK: invalid rank %r" % (r,))
        return g[int(r)]

    def _root(self, root):
        if not isinstance(root, (int, _np.integer)) or not 0 <= root < self.size:
            raise Exception("MPI_ERR_ROOT: invalid root %r" % (root,))
        return int(root)

    def _local(self, world):
        return self._g().index(world)

    # -- point to point, objects
    def _send(self, kind, payload, dest, tag, mode):
        dest = self._peer(dest)
        if dest == PROC_NULL:
            return None
        return _call(("send", self._cid, dest, int(tag), kind, payload, mode))

    def send(self, obj, dest, tag=0):
        self._send("obj", _dumps(obj), dest, tag, "std")

    def ssend(self, obj, dest, tag=0):
        self._send("obj", _dumps(obj), dest, tag, "sync")

    def bsend(self, obj, dest, tag=0):
        self._send("obj", _dumps(obj), dest, tag, "buf")

    def isend(self, obj, dest, tag=0):
        rid = self._send("obj", _dumps(obj), dest, tag, "imm")
        return Request(self, rid)

    issend = ibsend = isend

    def _recv(self, kind, source, tag, mode):
        source = self._peer(source)
        return _call(("recv", self._cid, source, int(tag), kind, mode))

    def _obj(self, res, status):
        src, tag, payload = res
        if status is not None:
            status._set(self._local(src), tag, len(payload))
        return _loads(payload)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        return self._obj(self._recv("obj", source, tag, "block"), status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        rid = self._recv("obj", source, tag, "imm")
        return Request(self, rid, self._obj)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        req = self.isend(sendobj, dest, sendtag)
        obj = self.recv(None, source, recvtag, status)
        req.wait()
        return obj

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, n = _call(("probe", self._cid, self._peer(source), int(tag)))
        if status is not None:
            status._set(self._local(src), t, n)
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        res = _call(("iprobe", self._cid, self._peer(source), int(tag)))
        if res is None:
            return False
        if status is not None:
            status._set(self._local(res[0]), res[1], res[2])
        return True

    Probe, Iprobe = probe, iprobe

    # -- point to point, buffers
    def Send(self, buf, dest, tag=0):
        self._send("buf", _bytes(buf), dest, tag, "std")

    def Ssend(self, buf, dest, tag=0):
        self._send("buf", _bytes(buf), dest, tag, "sync")

    def Bsend(self, buf, dest, tag=0):
        self._send("buf", _bytes(buf), dest, tag, "buf")

    def Isend(self, buf, dest, tag=0):
        return Request(self, self._send("buf", _bytes(buf), dest, tag, "imm"), watch=buf)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return
        src, t, data = self._recv("buf", source, tag, "block")
        if status is not None:
            status._set(self._local(src), t, len(data[1]))
        _fill(buf, data)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        def fin(res, status):
            if status is not None:
                status._set(self._local(res[0]), res[1], len(res[2][1]))
            _fill(buf, res[2])

        rid = self._recv("buf", source, tag, "imm")
        _spoil(buf)
        return Request(self, rid, fin)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        req = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        req.wait()

    # -- collectives
    def _coll(self, name, root, payload, meta=None, imm=False):
        return _call(("coll", self._cid, tuple(self._g()), name, root, payload, meta, imm))

    def _fin(self, imm, finish, *coll, watch=None, into=None):
        """A collective of buffers, blocking or not."""
        if imm:
            rid = self._coll(*coll, True)
            if into is not None:
                _spoil(into)
            return Request(self, rid, lambda res, status: finish(res), watch)
        return finish(self._coll(*coll))

    def Barrier(self):
        self._coll("barrier", None, None)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        root = self._root(root)
        payload = _dumps(obj) if self.rank == root else None
        return _loads(self._coll("bcast", root, payload))

    def Bcast(self, buf, root=0, _imm=False):
        root = self._root(root)
        mine = _bytes(buf)

        def finish(data):
            if self.rank != root:
                _fill(buf, data, exact=True)

        return self._fin(_imm, finish, "Bcast", root, mine if self.rank == root else None, (mine[0], len(mine[1])), watch=buf if self.rank == root else None, into=None if self.rank == root else buf)

    def gather(self, sendobj, root=0):
        root = self._root(root)
        res = self._coll("gather", root, _dumps(sendobj))
        return [_loads(x) for x in res] if self.rank == root else None

    def allgather(self, sendobj):
        return [_loads(x) for x in self._coll("allgather", None, _dumps(sendobj))]

    def scatter(self, sendobj=None, root=0):
        root = self._root(root)
        payload = None
        if self.rank == root:
            items = list(sendobj)
            if len(items) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(items)))
            payload = [_dumps(x) for x in items]
        return _loads(self._coll("scatter", root, payload))

    def alltoall(self, sendobj):
        items = list(sendobj)
        if len(items) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(items)))
        return [_loads(x) for x in self._coll("alltoall", None, [_dumps(x) for x in items])]

    @staticmethod
    def _fold(items, op):
        acc = items[0]
        for x in items[1:]:
            acc = op(acc, x)
        return acc

    def reduce(self, sendobj, op=SUM, root=0):
        root = self._root(root)
        res = self._coll("reduce", root, _dumps(sendobj), op.name if isinstance(op, Op) else "user")
        return self._fold([_loads(x) for x in res], op) if self.rank == root else None

    def allreduce(self, sendobj, op=SUM):
        res = self._coll("allreduce", None, _dumps(sendobj), op.name if isinstance(op, Op) else "user")
        return self._fold([_loads(x) for x in res], op)

    def scan(self, sendobj, op=SUM):
        res = self._coll("scan", None, _dumps(sendobj), op.name if isinstance(op, Op) else "user")
        return self._fold([_loads(x) for x in res[: self.rank + 1]], op)

    def exscan(self, sendobj, op=SUM):
        res = self._coll("exscan", None, _dumps(sendobj), op.name if isinstance(op, Op) else "user")
        return self._fold([_loads(x) for x in res[: self.rank]], op) if self.rank else None

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0, _imm=False):
        root = self._root(root)
        if sendbuf is IN_PLACE:
            if self.rank != root:
                raise Exception("MPI_ERR_BUFFER: IN_PLACE on a rank other than root")
            sendbuf = recvbuf
        mine = _bytes(sendbuf)

        def finish(res):
            if self.rank == root:
                acc = self._fold([_arr(x) for x in res], op)
                _fill(recvbuf, (acc.dtype.str, acc.tobytes()), exact=True)

        return self._fin(_imm, finish, "Reduce", root, mine, (mine[0], len(mine[1]), op.name), watch=sendbuf, into=recvbuf if self.rank == root and sendbuf is not recvbuf else None)

    def Allreduce(self, sendbuf, recvbuf, op=SUM, _imm=False):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        mine = _bytes(sendbuf)

        def finish(res):
            acc = self._fold([_arr(x) for x in res], op)
            _fill(recvbuf, (acc.dtype.str, acc.tobytes()), exact=True)

        return self._fin(_imm, finish, "Allreduce", None, mine, (mine[0], len(mine[1]), op.name), watch=sendbuf, into=recvbuf if sendbuf is not recvbuf else None)

    def _prefix(self, name, sendbuf, recvbuf, op, stop):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        mine = _bytes(sendbuf)
        res = self._coll(name, None, mine, (mine[0], len(mine[1]), op.name))[:stop]
        if res:
            acc = self._fold([_arr(x) for x in res], op)
            _fill(recvbuf, (acc.dtype.str, acc.tobytes()), exact=True)

    def Scan(self, sendbuf, recvbuf, op=SUM):
        self._prefix("scan", sendbuf, recvbuf, op, self.rank + 1)

    def Exscan(self, sendbuf, recvbuf, op=SUM):
        self._prefix("exscan", sendbuf, recvbuf, op, self.rank)

    def Gather(self, sendbuf, recvbuf, root=0, _imm=False):
        root = self._root(root)
        if sendbuf is IN_PLACE:
            sendbuf = _buf(recvbuf).reshape(self.size, -1)[root].copy()
        mine = _bytes(sendbuf)

        def finish(res):
            if self.rank == root:
                _fill(recvbuf, (mine[0], b"".join(x[1] for x in res)))

        return self._fin(_imm, finish, "Gather", root, mine, (mine[0], len(mine[1])), watch=sendbuf, into=recvbuf if self.rank == root and sendbuf is not recvbuf else None)

    def Allgather(self, sendbuf, recvbuf, _imm=False):
        if sendbuf is IN_PLACE:
            r = _buf(recvbuf)
            sendbuf = r.reshape(self.size, -1)[self.rank].copy()
        mine = _bytes(sendbuf)

        def finish(res):
            _fill(recvbuf, (mine[0], b"".join(x[1] for x in res)))

        return self._fin(_imm, finish, "Allgather", None, mine, (mine[0], len(mine[1])), watch=sendbuf, into=recvbuf if sendbuf is not recvbuf else None)

    def Alltoall(self, sendbuf, recvbuf):
        parts = _buf(sendbuf).reshape(self.size, -1)
        res = self._coll("alltoall", None, [_bytes(_np.ascontiguousarray(p)) for p in parts])
        _fill(recvbuf, (res[0][0], b"".join(x[1] for x in res)))

    def Ibcast(self, buf, root=0):
        return self.Bcast(buf, root, True)

    def Ireduce(self, sendbuf, recvbuf, op=SUM, root=0):
        return self.Reduce(sendbuf, recvbuf, op, root, True)

    def Iallreduce(self, sendbuf, recvbuf, op=SUM):
        return self.Allreduce(sendbuf, recvbuf, op, True)

    def Igather(self, sendbuf, recvbuf, root=0):
        return self.Gather(sendbuf, recvbuf, root, True)

    def Iallgather(self, sendbuf, recvbuf):
        return self.Allgather(sendbuf, recvbuf, True)

    @staticmethod
    def _vspec(spec):
        arr = spec[0] if isinstance(spec, (tuple, list)) else spec
        counts = displs = None
        if isinstance(spec, (tuple, list)):
            c = [x for x in spec[1:] if not isinstance(x, Datatype)]
            if c:
                c0 = c[0]
                if isinstance(c0, tuple) and len(c0) == 2 and not isinstance(c0[0], (int, _np.integer)):
                    counts, displs = c0
                else:
                    counts = c0
                    displs = c[1] if len(c) > 1 and c[1] is not None else None
        return arr, counts, displs

    def _vfill(self, recvbuf, res):
        arr, counts, displs = self._vspec(recvbuf)
        flat = _buf(arr).reshape(-1)
        parts = [_arr(x) for x in res]
        if counts is None:
            counts = [len(p) for p in parts]
        if displs is None:
            displs = _np.concatenate([[0], _np.cumsum(counts)[:-1]])
        for p, c, d in zip(parts, counts, displs):
            if len(p) > c:
                raise Exception("MPI_ERR_TRUNCATE: message truncated")
            flat[int(d) : int(d) + len(p)] = p

    def Gatherv(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        res = self._coll("Gatherv", root, _bytes(sendbuf))
        if self.rank == root:
            self._vfill(recvbuf, res)

    def Allgatherv(self, sendbuf, recvbuf):
        self._vfill(recvbuf, self._coll("Allgatherv", None, _bytes(sendbuf)))

    def Scatter(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        payload = None
        if self.rank == root:
            parts = _buf(sendbuf).reshape(self.size, -1)
            payload = [_bytes(_np.ascontiguousarray(p)) for p in parts]
        data = self._coll("Scatter", root, payload)
        if recvbuf is not IN_PLACE:
            _fill(recvbuf, data)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        root = self._root(root)
        payload = None
        if self.rank == root:
            arr, counts, displs = self._vspec(sendbuf)
            flat = _buf(arr).reshape(-1)
            if displs is None:
                displs = _np.concatenate([[0], _np.cumsum(counts)[:-1]])
            payload = [_bytes(flat[int(d) : int(d) + int(c)].copy()) for c, d in zip(counts, displs)]
        data = self._coll("Scatter", root, payload)
        if recvbuf is not IN_PLACE:
            _fill(recvbuf, data)

    def Ibarrier(self):
        return Request(self, self._coll("barrier", None, None, None, True))

    # -- communicators
    def Dup(self, info=None):
        cid = self._coll("dup", None, None)
        return Comm(("dup", cid, tuple(self._g())), list(self._g()))

    Clone = dup = Dup

    def Split(self, color=0, key=0):
        cid, res = self._coll("split", None, _dumps((color, key)))
        infos = [(_loads(x), i) for i, x in enumerate(res)]
        if color == UNDEFINED:
            return COMM_NULL
        mine = [((k, i), self._g()[i]) for (c, k), i in infos if c == color]
        mine.sort()
        return Comm(("split", cid, color, tuple(w for _, w in mine)), [w for _, w in mine])

    def Free(self):
        pass

    def Set_errhandler(self, e):
        pass

    def Abort(self, errorcode=0):
        raise SystemExit("MPI_Abort(%s)" % errorcode)


Intracomm = Comm


def _watched():
    try:
        return _core.client.watched
    except AttributeError:
        _core.client.watched = []
        return _core.client.watched


def _flush():
    for q in list(_watched()):
        now = _bytes(q._watch)
        if now != q._last:
            q._last = now
            _core.client.call(("update", q._rid, now))


def _call(op):
    _flush()
    return _core.client.call(op)


COMM_WORLD = Comm(0, None)
COMM_SELF = COMM_WORLD
COMM_NULL = None
ERRORS_RETURN = ERRORS_ARE_FATAL = None


def Wtime():
    return _time.time()


def Wtick():
    return 1e-6


def Init():
    pass


def Init_thread(required=3):
    return required


def Finalize():
    pass


def Is_initialized():
    return True


def Is_finalized():
    return False


def Get_processor_name():
    return "virtual"


def Query_thread():
    return THREAD_MULTIPLE


def Get_version():
    return (3, 1)
