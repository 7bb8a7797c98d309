#!/usr/bin/env python3
"""Conformance of the MPI model (mc/mpicore.py, mc/stubs) with the installed MPI library.

    mpi_conformance.py [--deviations N]

Two kinds of programs run on 2 to 4 ranks, under all schedules of the model within N
deviations and in both buffering modes, and with mpiexec under the real mpi4py:
the communication programs of mc/mpiprogs.py, and the rank functions of mc/rankfns.py
on the repository's code. A program with one outcome has to have it everywhere; what the
library does has to be among what the model allows.
"""

import os
import pickle
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"


def ring(n, u=0.7):
    op = {}
    for i in range(n):
        j = (i + 1) % n
        op[((i, "c"), (j, "a"))] = 1.0 + 0.25j
        op[((j, "c"), (i, "a"))] = 1.0 - 0.25j
        op[((i, "c"), (i, "a"))] = 0.1 * i
        op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = u
    return op


def repository(size):
    """name, function, arguments of every rank"""
    import itertools

    import numpy as np

    n = 6
    basis = [bytes([sum(1 << 7 - i for i in s)]) for s in itertools.combinations(range(n), 3)]
    op = ring(n)
    psi = [{basis[3]: 0.6, basis[7]: 0.8j}, {basis[0]: 1.0}]
    w = np.array([-1.0, 0.0, 0.5])
    t = {((0, "a"),): 1.0}
    t2 = {((1, "c"),): 0.5, ((0, "c"),): 1.0}
    same = lambda *a: [a] * size  # noqa: E731
    rows = [[{bytes([r, j]): {bytes([j]): complex(r, j)} for j in range((r * 2 + k) % 4)} for r in range(size)] for k in range(3)]
    for k, d in enumerate(rows):
        for chunk in (1, 2, None):
            yield f"allgather {k} {chunk}", "allgather", [(d[r], {b"p": {}}, chunk) for r in range(size)]
            yield f"twice {k} {chunk}", "allgather_twice", [(d[r], {}, chunk or 9, {b"x%d" % r: {}}, 1) for r in range(size)]
            for root in range(size):
                yield f"chunks {k} {chunk} {root}", "chunks", [(d[r], chunk, root) for r in range(size)]
    yield "expand", "expand", same(n, op, [basis[:1], basis[4:6]], None, {}, False)
    yield "expand local", "expand", same(n, op, [basis[:1], basis[4:6]], None, {}, True)
    yield "expand restricted", "expand_only", same(n, op, [basis[5:6], basis[5:9]], {(0, 1): (1, 1)}, {})
    for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI", None):
        yield f"hamiltonian {mode}", "hamiltonian", same(n, op, basis, mode)
    for par, mode in (("serial", "dict"), ("serial", "sparse"), ("H_build", "sparse")):
        yield f"green {mode} {par}", "green", same(n, 0.3, psi, op, w, 0.2, 5, 0, None, mode, par)
    for par in ("eigen_states", "H_build"):
        yield f"spectra {par}", "spectra", same(n, op, [t, t2], psi, [0.1, 0.4], w, 0.2, None, 5, 0, par)
    for par in ("serial", "H_build", "wIn", "H_build_wIn"):
        yield f"rixs {par}", "rixs", same(n, op, [t], [t2], psi, [0.1, 0.4], w, np.array([0.0, 0.3]), 0.2, 0.1, None, 5, 0, par)


def jobs(size):
    from mc import mpiprogs

    for name in mpiprogs.ALL:
        yield name, "program", [(name,)] * size
    yield from repository(size)


# ------------------------------------------------------------------ real library
def real(size, select, out):
    """Executed by mpiexec."""
    from mc import env

    sys.meta_path.insert(0, env._Finder())
    sys.dont_write_bytecode = True
    from mpi4py import MPI

    assert MPI.__file__.endswith(".so"), MPI.__file__
    MPI._dumps = pickle.dumps
    import contextlib
    import io

    from mc import rankfns

    c = MPI.COMM_WORLD
    assert c.size == size
    res = {}
    for name, fn, args in jobs(size):
        if select is not None and name != select or select is None and name.endswith("_hang"):
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            mine = getattr(rankfns, fn)(c.rank, size, *pickle.loads(pickle.dumps(args[c.rank])))
        c.Barrier()
        res[name] = c.gather(mine, root=0)
    if c.rank == 0:
        with open(out, "wb") as f:
            pickle.dump(res, f)


def launch(size, select, timeout):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "out")
        e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=VERIF, MPLBACKEND="Agg")
        p = subprocess.Popen(["mpiexec", "--oversubscribe"] + sum([[":"][:r] + ["-n", "1", "-x", "PYTHONHASHSEED=%d" % (1 + 7 * r), PY, "-B", os.path.abspath(__file__), "--real", str(size), select or "-", out] for r in range(size)], []), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.terminate()
            p.wait()
            return "hang"
        if p.returncode:
            return "failed: " + text.decode(errors="replace")[-1500:]
        with open(out, "rb") as f:
            return pickle.load(f)


# ------------------------------------------------------------------ comparison
def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-10)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)):
        return abs(a - b) < 1e-10
    return a == b


def main():
    dev = int(sys.argv[sys.argv.index("--deviations") + 1]) if "--deviations" in sys.argv else 1
    from mc import mpicheck

    bad = runs = schedules = 0
    for size in (2, 3, 4):
        library = [launch(size, None, 300) for _ in range(3)]
        for x in library:
            if not isinstance(x, dict):
                print("cannot run the library:", x)
                return 1
        for name, fn, args in jobs(size):
            model, errors = [], set()
            bound = dev if fn == "program" or size < 4 else 0
            if name.endswith("_any"):
                bound = 99
            for mode in ("eager", "rendezvous"):
                for _, _, x in mpicheck.cluster(0, size).explore(size, fn, args, bound, (mode,), 400):
                    schedules += 1
                    if x["error"]:
                        errors.add(x["error"])
                    elif not any(same(x["results"], y) for y in model):
                        model.append(x["results"])
            runs += 1
            if name.endswith("_hang"):
                got = launch(size, name, 6)
                ok = got == "hang" and errors and not model and all("deadlock" in e for e in errors)
                text = f"library {got if isinstance(got, str) else 'finished'}, model {errors or 'finished'}"
            else:
                cut = lambda rs: [r[:3] for r in rs] if fn == "allgather" else rs  # noqa: E731
                model = [cut(m) for m in model]
                got = [cut(x[name]) for x in library]
                ok = not errors and all(any(same(g, m) for m in model) for g in got) and (name.endswith("_any") or len(model) == 1)
                text = f"library {got}, model {model} {errors}"
            if not ok:
                bad += 1
                print(f"DIFFERS {size} ranks, {name}: {text[:1500]}")
    mpicheck.close()
    print(f"{runs} programs, {schedules} schedules of the model, {bad} differences")
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--real"]:
        real(int(sys.argv[2]), None if sys.argv[3] == "-" else sys.argv[3], sys.argv[4])
    else:
        sys.exit(main())
