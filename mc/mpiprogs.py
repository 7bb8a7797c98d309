"""Short communication programs fn(rank, size) -> plain data, for tools/mpi_conformance.py.

Each runs under the MPI model (mc.vmpi) and under the installed MPI library.
Names ending in _any have several outcomes, those in _hang never finish, those
in _fail raise.
"""

import numpy as np


def _w():
    from mpi4py import MPI

    return MPI, MPI.COMM_WORLD


def bcast_roots(rank, size):
    _, c = _w()
    return [c.bcast({"from": r, "x": [1j, b"y", {2: 3}]} if rank == r else "ignored", root=r) for r in range(size)]


def gathers(rank, size):
    _, c = _w()
    return [c.gather((rank, "a" * rank), root=size - 1), c.allgather({rank: rank**2}), c.alltoall([(rank, i) for i in range(size)]), c.scatter([i * 10 for i in range(size)] if rank == 0 else None, root=0)]


def reduces(rank, size):
    MPI, c = _w()
    out = [c.reduce(rank + 1), c.reduce([rank], root=size - 1), c.allreduce(rank + 1, op=MPI.PROD), c.allreduce(rank, op=MPI.MAX), c.allreduce(rank, op=MPI.MIN)]
    out += [c.allreduce(rank == 1, op=MPI.LOR), c.allreduce(rank == 1, op=MPI.LAND), c.scan(rank + 1), c.exscan(rank + 1)]
    return out


def buffers(rank, size):
    MPI, c = _w()
    out = []
    for dt in (float, complex, np.int64):
        a = (np.arange(6).reshape(2, 3) * (rank + 1)).astype(dt)
        b = np.full((2, 3), -1, dtype=dt)
        c.Reduce(a, b)
        s = np.full((2, 3), -1, dtype=dt)
        c.Allreduce(a, s)
        m = np.full((2, 3), -1, dtype=dt)
        c.Reduce([a, MPI.DOUBLE if dt is float else MPI.DOUBLE_COMPLEX if dt is complex else MPI.INT64_T], m, op=MPI.SUM, root=size - 1)
        v = a.copy() if rank == 0 else np.zeros((2, 3), dtype=dt)
        c.Bcast(v, root=0)
        q = np.zeros((2, 2, 3), dtype=dt)
        q[1] = a
        c.Bcast(q[1, :], root=size - 1)
        g = np.zeros((size, 2, 3), dtype=dt)
        c.Allgather(a, g)
        h = np.zeros((size, 2, 3), dtype=dt)
        c.Gather(a, h, root=0)
        z = np.zeros((2, 3), dtype=dt)
        c.Scatter(g, z, root=0)
        out.append([x.tolist() for x in (b, s, m, v, q, g, h, z)])
    a = np.array([rank + 1.0, 2.0])
    c.Allreduce(MPI.IN_PLACE, a)
    b = np.array([rank + 1.0, 2.0])
    if rank == 0:
        c.Reduce(MPI.IN_PLACE, b)
    else:
        c.Reduce(b, None)
    return out, a.tolist(), b.tolist()


def vbuffers(rank, size):
    MPI, c = _w()
    a = np.arange(rank + 1.0) + 10 * rank
    n = sum(range(1, size + 1))
    g = np.zeros(n)
    c.Allgatherv(a, [g, list(range(1, size + 1))])
    h = np.zeros(n)
    c.Gatherv(a, [h, list(range(1, size + 1))] if rank == 0 else None, root=0)
    return g.tolist(), h.tolist()


def prefixes(rank, size):
    MPI, c = _w()
    a = np.arange(3.0) + rank
    s, e, t = np.zeros(3), np.zeros(3), np.zeros(size)
    c.Scan(a, s)
    c.Exscan(a, e)
    c.Alltoall(np.arange(size) + 10.0 * rank, t)
    v = np.zeros(rank + 1)
    c.Scatterv([np.arange(20.0), list(range(1, size + 1))] if rank == 0 else None, v, root=0)
    return s.tolist(), e.tolist() if rank else None, t.tolist(), v.tolist()


def later(rank, size):
    """Collectives that are completed afterwards."""
    MPI, c = _w()
    a = np.arange(3.0) + rank if rank == 1 else np.zeros(3)
    x = np.ones(3) * rank
    r, s, g, h = np.zeros(3), np.zeros(3), np.zeros((size, 3)), np.zeros((size, 3))
    reqs = [c.Ibcast(a, root=1), c.Ireduce(x, r, root=0), c.Iallreduce(x, s), c.Igather(x, h, root=0), c.Iallgather(x, g), c.Ibarrier()]
    mid = c.allreduce(rank)
    for q in reqs:
        q.Wait()
    return a.tolist(), r.tolist(), s.tolist(), g.tolist(), h.tolist(), mid


def part(rank, size):
    """A communicator of some ranks only."""
    MPI, c = _w()
    d = c.Split(0 if rank != 1 else MPI.UNDEFINED, rank)
    if rank == 1:
        return d == MPI.COMM_NULL
    e = d.Split(0, -d.rank)
    return d.allgather(rank), e.allgather(rank), e.rank, d.bcast(rank, root=d.size - 1)


def fan_in(rank, size):
    """As in the repository: everybody sends to rank 0, which receives in order."""
    _, c = _w()
    if rank == 0:
        return [c.recv(source=r, tag=0) for r in range(1, size)]
    return c.send({"r": rank, "s": {b"a", b"b"}}, dest=0, tag=0)


def order(rank, size):
    """Messages between two ranks with one tag do not overtake each other; tags select."""
    _, c = _w()
    if rank == 1:
        for q in [c.isend(i, dest=0, tag=i % 2) for i in range(4)]:
            q.wait()
    if rank == 0:
        return [c.recv(source=1, tag=0), c.recv(source=1, tag=0), c.recv(source=1, tag=1), c.recv(source=1, tag=1)]


def ring(rank, size):
    _, c = _w()
    req = c.isend(rank, dest=(rank + 1) % size, tag=7)
    got = c.recv(source=(rank - 1) % size, tag=7)
    req.wait()
    r2 = c.irecv(source=(rank + 1) % size, tag=8)
    c.send(rank * 10, dest=(rank - 1) % size, tag=8)
    return got, r2.wait(), c.sendrecv(-rank, dest=(rank + 1) % size, source=(rank - 1) % size)


def sync(rank, size):
    MPI, c = _w()
    st = MPI.Status()
    if rank == 0:
        for r in range(1, size):
            c.ssend("to %d" % r, dest=r, tag=r)
        return None
    x = c.recv(source=0, tag=MPI.ANY_TAG, status=st)
    return x, st.Get_source(), st.Get_tag()


def probes(rank, size):
    MPI, c = _w()
    if rank == 0:
        out = []
        for r in range(1, size):
            st = MPI.Status()
            c.probe(source=r, tag=MPI.ANY_TAG, status=st)
            out.append((st.Get_source(), st.Get_tag(), c.recv(source=st.Get_source(), tag=st.Get_tag())))
        return out
    c.send("p%d" % rank, dest=0, tag=100 + rank)


def buffered(rank, size):
    _, c = _w()
    out = np.zeros(3)
    if rank == 0:
        res = []
        for r in range(1, size):
            c.Recv(out, source=r, tag=3)
            res.append(out.tolist())
        return res
    c.Send(np.arange(3.0) + rank, dest=0, tag=3)
    req = None
    return req


def nonblocking(rank, size):
    MPI, c = _w()
    a, b = np.arange(4) + rank, np.zeros(4, dtype=np.int64)
    reqs = [c.Irecv(b, source=(rank - 1) % size, tag=1), c.Isend(a.astype(np.int64), dest=(rank + 1) % size, tag=1)]
    MPI.Request.Waitall(reqs)
    return b.tolist()


def splits(rank, size):
    _, c = _w()
    d = c.Split(rank % 2, -rank)
    e = c.Dup()
    return d.rank, d.size, d.allgather(rank), e.allgather(rank), e.bcast(rank, root=size - 1)


def two_comms(rank, size):
    """Collectives on different communicators are independent."""
    _, c = _w()
    d = c.Dup()
    return c.bcast(rank, root=0), d.bcast(rank, root=size - 1), c.allreduce(1), d.allreduce(rank)


def first_any(rank, size):
    MPI, c = _w()
    if rank == 0:
        st = MPI.Status()
        out = []
        for _ in range(1, size):
            x = c.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=st)
            out.append((x, st.Get_source()))
        return out
    c.send(rank, dest=0, tag=rank)


def tags_any(rank, size):
    MPI, c = _w()
    if rank == 0:
        return [c.recv(tag=5) for _ in range(1, size)] + [c.recv(source=1, tag=6)]
    req = c.isend("six", dest=0, tag=6) if rank == 1 else None
    c.send(rank, dest=0, tag=5)
    if req:
        req.wait()


def recv_recv_hang(rank, size):
    _, c = _w()
    if rank < 2:
        return c.recv(source=1 - rank)


def ssend_ssend_hang(rank, size):
    _, c = _w()
    if rank < 2:
        c.ssend(1, dest=1 - rank)
        return c.recv(source=1 - rank)


def missing_part_hang(rank, size):
    _, c = _w()
    if rank != 1:
        return c.allreduce(1)
    return c.recv(source=0)


def wrong_tag_hang(rank, size):
    _, c = _w()
    if rank == 1:
        c.send(1, dest=0, tag=1)
    if rank == 0:
        return c.recv(source=1, tag=2)


def truncate_fail(rank, size):
    _, c = _w()
    if rank == 1:
        c.Send(np.arange(5.0), dest=0)
    if rank == 0:
        c.Recv(np.zeros(3), source=1)


def root_fail(rank, size):
    _, c = _w()
    return c.bcast(1, root=size)


def dest_fail(rank, size):
    _, c = _w()
    c.send(1, dest=size + 3)


def scatter_fail(rank, size):
    _, c = _w()
    return c.scatter([1] * (size + 1), root=rank)


def noncontiguous_fail(rank, size):
    _, c = _w()
    c.Bcast(np.zeros((3, 3))[:, 1], root=0)


ALL = [k for k, v in list(globals().items()) if callable(v) and not k.startswith("_")]
