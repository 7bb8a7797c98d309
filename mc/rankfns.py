"""What a virtual rank executes: fn(rank, size, *args) on the real code, returning plain data."""

import contextlib

import numpy as np


def allgather(rank, size, data, total, chunk):
    from impurityModel.ed.mpi_comm import allgather_dict

    kw = {} if chunk is None else {"chunk_maxsize": chunk}
    sent = [0]
    with recorded(sent):
        ret = allgather_dict(data, total, **kw)
    return data, total, ret, max(sent)


@contextlib.contextmanager
def recorded(sent):
    """Note the number of elements of every dictionary this rank passes to a communication call."""
    from mpi4py import MPI

    dumps = MPI._dumps

    def note(obj):
        sent.append(sum(len(x) for x in (obj if isinstance(obj, (list, tuple)) else [obj]) if isinstance(x, dict)))
        return dumps(obj)

    MPI._dumps = note
    try:
        yield
    finally:
        MPI._dumps = dumps


def allgather_twice(rank, size, data, total, chunk, data2, chunk2):
    from impurityModel.ed.mpi_comm import allgather_dict

    allgather_dict(data, total, chunk)
    first = dict(total)
    allgather_dict(data2, total, chunk2)
    return data, first, data2, total


def chunks(rank, size, data, chunk, root):
    from impurityModel.ed.mpi_comm import dict_chunks_from_one_MPI_rank

    kw = {} if chunk is None else {"chunk_maxsize": chunk}
    return data, list(dict_chunks_from_one_MPI_rank(data, root=root, **kw))


def _csr(h):
    return (h.toarray() if hasattr(h, "toarray") else np.asarray(h)).astype(complex)


def expand(rank, size, n, op, starts, restr, store, local, raw=True):
    """A sequence of distributed constructions sharing one store."""
    from impurityModel.ed.finite import expand_basis_and_hamiltonian

    r = None if restr is None else {frozenset(k): v for k, v in restr.items()}
    out = []
    for start in starts:
        h, ix = expand_basis_and_hamiltonian(n, store, op, tuple(start), r, "H_build", local)
        out.append((_csr(h), dict(ix)))
    return out, store, op


def expand_only(rank, size, n, op, starts, restr, store):
    from impurityModel.ed.finite import expand_basis

    r = None if restr is None else {frozenset(k): v for k, v in restr.items()}
    return [list(expand_basis(n, store, op, tuple(s), r, "H_build")) for s in starts], store


def hamiltonian(rank, size, n, op, basis, mode):
    from impurityModel.ed.finite import get_hamiltonian_matrix

    return _csr(get_hamiltonian_matrix(n, op, tuple(basis), **({} if mode is None else {"mode": mode}))), op


def eigen(rank, size, n, op, basis, k, mode):
    from impurityModel.ed.finite import eigensystem

    es, psis = eigensystem(n, op, tuple(basis), k, mode)
    return np.array(es), [dict(p) for p in psis]


def green(rank, size, n, e, psis, op, w, delta, k, swm, restr, mode, par):
    """Several Green's functions sharing one store."""
    from impurityModel.ed.spectra import getGreen

    r = None if restr is None else {frozenset(x): v for x, v in restr.items()}
    store = {}
    return [np.array(getGreen(n, e, p, op, w, delta, k, swm, r, store, mode, par)) for p in psis]


def spectra(rank, size, n, op, tops, psis, es, w, delta, restr, k, swm, par):
    from impurityModel.ed.spectra import getSpectra

    r = None if restr is None else {frozenset(x): v for x, v in restr.items()}
    return np.array(getSpectra(n, op, tops, psis, es, w, delta, r, k, swm, par))


def rixs(rank, size, n, op, tin, tout, psis, es, win, wloss, d1, d2, restr, k, swm, par):
    from impurityModel.ed.spectra import getRIXSmap

    r = None if restr is None else {frozenset(x): v for x, v in restr.items()}
    return np.array(getRIXSmap(n, op, tin, tout, psis, es, win, wloss, d1, d2, r, k, swm, {}, par))


def several(rank, size, calls):
    """Calls following each other without any synchronisation in between."""
    return [globals()[fn](rank, size, *args) for fn, args in calls]


def ident(rank, size):
    from impurityModel.ed import finite

    return finite.rank, finite.ranks, hash("x")


def simulate(rank, size, directory, args, nBaths):
    """simulate_spectra on all ranks, writing files in the given directory."""
    import contextlib
    import io
    import os

    import h5py
    from impurityModel.ed.spectra import simulate_spectra

    old = os.getcwd()
    os.chdir(directory)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            simulate_spectra(*args, h5py.File("spectra.h5", "w") if rank == 0 else None, nBaths)
    finally:
        os.chdir(old)
    return True


def report(rank, size, directory, kind, par, extra):
    """main on all ranks in the given directory, the spectra replaced by a recorder (C30)."""
    import os

    from mc.checks import c25, c30

    old = os.getcwd()
    sub = os.path.join(directory, "rank%d" % rank)
    os.makedirs(sub, exist_ok=True)
    os.chdir(sub)
    try:
        return (*c30.observe(lambda: c25.start(kind, par, extra)), sorted(os.listdir(".")))
    finally:
        os.chdir(old)


def main(rank, size, directory, kind, par):
    """A complete run on all ranks in the given directory, which holds the input files (C25)."""
    import os

    from mc.checks import c25

    old = os.getcwd()
    os.chdir(directory)
    try:
        c25.call(kind, par)
    finally:
        os.chdir(old)
    return True


def program(rank, size, name):
    """A communication program of tools/mpi_conformance.py."""
    from mc import mpiprogs

    try:
        return getattr(mpiprogs, name)(rank, size)
    except Exception:
        if name.endswith("_fail"):
            return "raised"
        raise
