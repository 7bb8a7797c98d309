"""C09: Hamiltonian matrices.

For a family of operators (all hopping graphs on 4 spin-orbitals, interacting,
number-changing, non-Hermitian, cancelling, sub-cut-off terms) and every ordered
list of <= 3 product states plus every rotation and reversal of whole sectors, the
matrices of every direct construction mode, of every construction from stored
results and of the combined expansion are compared element by element with the
model, together with the index map.
"""

import itertools

import numpy as np

from mc import ref
from mc.checks import c08
from mc.harness import Result, need

ID = "C09"
N = 4
MEANING = "states: ordered lists of product states; transitions: matrix elements compared; traces: matrices built by the real code"
OTHER = dict(
    c08.OTHER,
    complexpair={((0, "c"), (1, "c"), (2, "a"), (3, "a")): 1.0 + 2j, ((3, "c"), (2, "c"), (1, "a"), (0, "a")): 1.0 - 2j, ((0, "c"), (0, "a")): -1.0,
                 ((1, "c"), (3, "a")): 1j, ((3, "c"), (1, "a")): -1j},
    nonherm={((0, "c"), (1, "a")): 1.0 + 2j, ((1, "c"), (0, "a")): 3.0, ((2, "c"), (3, "a")): 1j, ((2, "c"), (2, "a"), (1, "c"), (1, "a")): 0.25},
    small={((0, "c"), (1, "a")): 3e-6j, ((1, "c"), (0, "a")): -3e-6j, ((2, "c"), (2, "a")): 5e-6, ((3, "c"), (1, "c"), (2, "a"), (0, "a")): 2e-4, ((0, "c"), (2, "c"), (1, "a"), (3, "a")): 2e-4,
           ((3, "c"), (3, "a")): 1.0},
    ints={((0, "c"), (1, "a")): 2, ((1, "c"), (0, "a")): 2, ((2, "c"), (2, "a")): -3},
)


def BOUNDS(tier):
    return dict(n=N, operators=64 + len(OTHER), lists="all ordered lists of <= %d states of 7, all rotations and reversals of full sectors; chains of up to 129 spin-orbitals, up to 276 product states; interacting rings with 126, 462 and 1287 product states" % (3 if tier == "quick" else 4))


def cases(tier):
    ops = sorted(range(64), key=lambda x: (bin(x).count("1"), x))
    sel = ops if tier == "thorough" else ops[::3]
    d = 3 if tier == "quick" else 4
    return [["direct", o, d] for o in sel + list(OTHER)] + [["stored", o] for o in ops + list(OTHER)] + [["wide", n] for n in (8, 9, 16, 17, 24, 33, 65, 129)] + [["large", n, e] for n, e in ((9, 4), (11, 5), (13, 5)) + (((14, 6),) if tier == "thorough" else ())]


def op_of(x):
    return c08.hop(x) if isinstance(x, int) else OTHER[x]


def dense(h):
    return np.asarray(h.todense()) if hasattr(h, "todense") else np.asarray(h)


def cut(h):
    return np.where(abs(h) ** 2 < 1e-12, 0, h)


def check(h, want, where, res, hermitian):
    need(h.shape == want.shape, where, "has shape", h.shape)
    d = dense(h)
    bad = np.argwhere(abs(d - want) > 1e-12 * max(1, abs(want).max() if want.size else 1))
    need(len(bad) == 0, where, "element", bad[0] if len(bad) else "", "is", d[tuple(bad[0])] if len(bad) else "", "expected", want[tuple(bad[0])] if len(bad) else "")
    if hermitian:
        need(abs(d - d.conj().T).max(initial=0) < 1e-12, where, "is not Hermitian")
    res.transitions += want.size
    res.traces += 1


def run(case):
    from impurityModel.ed import finite

    res = Result()
    if case[0] == "direct":
        op = op_of(case[1])
        full = ref.matrix(op, ref.fock(N))
        herm = abs(full - full.conj().T).max() < 1e-13
        pool = [0b0011, 0b0101, 0b1010, 0b1100, 0b0001, 0b0111, 0b0110]
        lists = [list(p) for k in range(1, case[2] + 1) for p in itertools.permutations(pool, k)]
        for e in range(N + 1):
            f = ref.fock(N, e)
            lists += [f[i:] + f[:i] for i in range(len(f))] + [f[::-1]]
        lists.append(ref.fock(N))
        for b in lists:
            want = cut(ref.matrix(op, b))
            basis = tuple(ref.enc(m, N) for m in b)
            res.states += 1
            for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI", None):
                o = dict(op)
                h = finite.get_hamiltonian_matrix(N, o, basis, **({} if mode is None else {"mode": mode}))
                need(o == op, "operator modified")
                check(h, want, f"get_hamiltonian_matrix op={op} basis={[ref.occ(m) for m in b]} mode={mode}", res, herm)
        res.outcomes = {"hermitian" if herm else "non-hermitian"}
    elif case[0] == "stored":
        op = op_of(case[1])
        for start in c08.starts()[:-6]:
            for restr in (None, {(0, 1): (1, 2)}, {(0,): (0, 0)}):
                clo = sorted(ref.closure(op, start, restr))
                if not clo:
                    continue
                r = None if restr is None else {frozenset(k): v for k, v in restr.items()}
                for order in (clo, clo[::-1], clo[1:] + clo[:1]):
                    store = {}
                    for m in clo + [k for k in (0b1111, 0) if k not in clo]:
                        store[ref.enc(m, N)] = {ref.enc(k, N): v for k, v in ref.apply(op, {m: 1}, restr).items() if abs(v) ** 2 >= 1e-12}
                    want = cut(ref.matrix(op, order, restr))
                    basis = tuple(ref.enc(m, N) for m in order)
                    before = {k: dict(v) for k, v in store.items()}
                    for args in (("serial", False, "dense"), ("serial", False, "sparse"), ("H_build", False, "sparse"), ("H_build", True, "sparse")):
                        h, idx = finite.get_hamiltonian_matrix_from_h_dict(store, basis, *args)
                        where = f"get_hamiltonian_matrix_from_h_dict op={op} basis={[ref.occ(m) for m in order]} {args}"
                        check(h, want, where, res, False)
                        need(idx == {b: i for i, b in enumerate(basis)}, where, "index map", idx)
                        need(store == before, where, "changed the store")
                    # stored elements of any size
                    store = {b: {k: v * 1e-7 for k, v in r.items()} for b, r in store.items()}
                    for args in (("serial", False, "dense"), ("serial", False, "sparse"), ("H_build", False, "sparse"), ("H_build", True, "sparse")):
                        h, _ = finite.get_hamiltonian_matrix_from_h_dict(store, basis, *args)
                        check(h * 1e7, want, f"get_hamiltonian_matrix_from_h_dict op={op} times 1e-7 basis={[ref.occ(m) for m in order]} {args}", res, False)
                    res.states += 1
                start_b = tuple(ref.enc(m, N) for m in start)
                for args in (("serial",), ("H_build",), ("H_build", True), ("serial", False)):
                    store = {}
                    h, idx = finite.expand_basis_and_hamiltonian(N, store, dict(op), start_b, r, *args)
                    where = f"expand_basis_and_hamiltonian op={op} start={[ref.occ(m) for m in start]} restrictions={restr} {args}"
                    need({ref.dec(k, N) for k in idx} == set(clo) and sorted(idx.values()) == list(range(len(clo))), where, "index map", idx)
                    order = [ref.dec(k, N) for k in sorted(idx, key=idx.get)]
                    check(h, cut(ref.matrix(op, order, restr)), where, res, False)
        res.outcomes = {"stored"}
    elif case[0] == "large":
        from scipy.sparse import csr_matrix

        n, e = case[1:]
        op = {}
        for i in range(n):
            j, k = (i + 1) % n, (i + 4) % n
            op[((i, "c"), (i, "a"))] = float(i)
            op[((i, "c"), (j, "a"))] = 1.0 + 0.5j
            op[((j, "c"), (i, "a"))] = 1.0 - 0.5j
            op[((i, "c"), (k, "c"), (k, "a"), (i, "a"))] = 0.3 + 0.01 * i
        b = ref.fock(n, e)
        b = b[::-2] + b[len(b) % 2 :: 2]
        want = ref.matrix(op, b)
        ws = csr_matrix(want)
        basis = tuple(ref.enc(m, n) for m in b)

        def big(h, where):
            need(h.shape == ws.shape, where, "has shape", h.shape)
            d = abs(csr_matrix(h) - ws).tocoo()
            x = d.data.argmax() if d.nnz else 0
            need(d.nnz == 0 or d.data[x] < 1e-11, where, "element", (d.row[x], d.col[x]) if d.nnz else "", "is wrong")
            res.transitions += h.shape[0] ** 2
            res.traces += 1

        for mode in ("sparse_serial", "sparse_MPI") + (("dense_serial", "dense_MPI") if len(b) < 200 or n > 11 else ()):
            big(finite.get_hamiltonian_matrix(n, dict(op), basis, mode=mode), f"get_hamiltonian_matrix n={n} electrons={e} mode={mode}")
        full = {ref.enc(m, n): {ref.enc(k, n): v for k, v in ref.apply(op, {m: 1}).items() if v} for m in b}
        for args in (("serial", False, "dense"), ("serial", False, "sparse"), ("H_build", False, "sparse"), ("H_build", True, "sparse")):
            h, idx = finite.get_hamiltonian_matrix_from_h_dict(full, basis, *args)
            big(h, f"get_hamiltonian_matrix_from_h_dict n={n} electrons={e} {args}")
            need(idx == {x: i for i, x in enumerate(basis)}, "index map")
        # start with one state or with many; with a store of some
        for start, pre in ((b[:1], []), (b[::3], b[1::4])):
            for args in (("serial",), ("H_build",), ("H_build", True)):
                store = {ref.enc(m, n): dict(full[ref.enc(m, n)]) for m in pre}
                h, idx = finite.expand_basis_and_hamiltonian(n, store, dict(op), tuple(ref.enc(m, n) for m in start), None, *args)
                where = f"expand_basis_and_hamiltonian n={n} electrons={e} from {len(start)} states, {len(pre)} stored, {args}"
                need(set(idx) == set(basis) and sorted(idx.values()) == list(range(len(b))), where, "index map")
                perm = [idx[x] for x in basis]
                big(csr_matrix(h)[perm][:, perm], where)
        res.states += len(b)
        res.outcomes = {"large"}
    else:
        n = case[1]
        op = {}
        for i in range(n):
            op[((i, "c"), (i, "a"))] = float(i)
            if i + 1 < n:
                op[((i, "c"), (i + 1, "a"))] = 1.0 + 0.5j
                op[((i + 1, "c"), (i, "a"))] = 1.0 - 0.5j
        for e in (1, 2):
            if n > 30 and e == 2:
                continue
            b = [1 << i for i in range(n)] if e == 1 else ref.fock(n, e)[::-1]
            want = ref.matrix(op, b)
            basis = tuple(ref.enc(m, n) for m in b)
            for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"):
                check(finite.get_hamiltonian_matrix(n, op, basis, mode=mode), want, f"get_hamiltonian_matrix n={n} electrons={e} mode={mode}", res, True)
            res.states += 1
            restr = {tuple(range(0, n, 2)): (0, 1), tuple(range(n // 2)): (0, 1), (0,): (0, 0)}
            r = {frozenset(k): v for k, v in restr.items()}
            start = b[1:2] + b[-2:]
            clo = ref.closure(op, start, restr)
            for args in (("serial",), ("H_build",), ("H_build", True)):
                store = {}
                h, idx = finite.expand_basis_and_hamiltonian(n, store, dict(op), tuple(ref.enc(m, n) for m in start), r, *args)
                need({ref.dec(k, n) for k in idx} == clo, "expand_basis_and_hamiltonian n=%d: index map" % n, len(idx), "states, expected", len(clo))
                order = [ref.dec(k, n) for k in sorted(idx, key=idx.get)]
                check(h, cut(ref.matrix(op, order, restr)), f"expand_basis_and_hamiltonian n={n} {args}", res, False)
            full = {ref.enc(m, n): {ref.enc(k, n): v for k, v in ref.apply(op, {m: 1}).items()} for m in b}
            for args in (("serial", False, "dense"), ("serial", False, "sparse"), ("H_build", False, "sparse"), ("H_build", True, "sparse")):
                h, idx = finite.get_hamiltonian_matrix_from_h_dict(full, basis, *args)
                check(h, want, f"get_hamiltonian_matrix_from_h_dict n={n} {args}", res, False)
                need(idx == {x: i for i, x in enumerate(basis)}, "index map")
        res.outcomes = {"wide"}
    return res
