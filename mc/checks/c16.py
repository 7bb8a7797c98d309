"""C16: Green's function in every algorithm mode.

Every hopping graph on 4 spin-orbitals with interaction variants, start states that
are product states or (complex) superpositions in every particle-number sector and
across sectors, every Krylov size from 1 to beyond exhaustion, restrictions, both signs
of the broadening, all algorithm modes (dictionary, dense, sparse; with the serial and
the distributed construction), and every sequence of up to 3 calls sharing one store of
Hamiltonian results (explicit enumeration of histories). Oracle: direct solution of the
linear system / the continued fraction of an independent, fully orthogonalised Lanczos.
"""

import itertools

import numpy as np

from mc import ref
from mc.checks.c15 import chain, graph
from mc.harness import Result, need

ID = "C16"
MEANING = "states: (Hamiltonian, restriction, start state) triples; transitions: Green's function values compared; traces: calls of the real code"
W = np.array([-3.0, -0.7, 0.0, 0.4, 1.1, 5.0])
RESTR = [None, {(0, 1): (0, 1)}, {(2, 3): (1, 1)}, {(0, 1): (1, 2), (2, 3): (0, 1)}, {(3,): (0, 0)}]
MODES = [("sparse", "serial"), ("dense", "serial"), ("dict", "serial"), ("sparse", "H_build"), ("dense", "H_build")]
R = np.sqrt(0.5)
STATES = [
    {0b0001: 1}, {0b0011: 1}, {0b0110: 1.0}, {0b1011: 1}, {0b0000: 1}, {0b1111: 1}, {0b0001: 0.6, 0b0010: 0.8j}, {0b0101: R, 0b1010: -R},
    {0b0110: 0.5, 0b1001: 0.5, 0b0011: 0.5j, 0b1100: -0.5}, {0b1000: 0.6, 0b0110: 0.8}, {0b0100: np.complex128(-0.28 + 0j), 0b0010: np.float64(0.96)},
]


def BOUNDS(tier):
    return dict(graphs=64, interactions=3, start_states=len(STATES), restrictions=len(RESTR), krylov="1..dimension+2 and 150", modes=MODES, large="graphs placed in 12 to 130 spin-orbitals; chains with 462 and 1287 product states, 1201 energies", history=3 if tier == "quick" else 4)


def cases(tier):
    g = sorted(range(64), key=lambda x: (bin(x).count("1"), x))
    out = [["graph", e, i, r] for e in g for i in range(3) for r in (range(len(RESTR)) if tier == "thorough" else [0, 1 + (e + i) % 4])]
    hist = [(0b1, 2), (0b111111, 2), (0b100001, 1), (0b101101, 0)] if tier == "quick" else [(e, i) for e in (1, 9, 33, 45, 63, 42, 21) for i in range(3)]
    out += [["history", e, i, r, f] for e, i in hist for r in range(len(RESTR)) for f in range(len(STATES))]
    out += [["weak", e, i] for e in g for i in range(3)]
    out += [["chain", n, e, v] for n, e in ([(6, 3), (8, 4), (9, 2)] if tier == "quick" else [(6, 3), (8, 4), (9, 2), (9, 4), (10, 5)]) for v in range(4)]
    out += [["tridiagonal", e, i] for e in g[::3] for i in range(3)]
    out.append(["empty"])
    out += [["placed", n, e, i] for n in (12, 33, 70, 130) for e, i in ((63, 2), (45, 1), (9, 0))]
    out += [["large", n, e, m] for n, e in ([(11, 5), (13, 5)] if tier == "quick" else [(11, 5), (13, 5), (14, 6)]) for m in range(len(MODES))]
    return out


def exact(op, psi, restr, e, w, delta, ks):
    basis = sorted(ref.closure(op, psi, restr))
    H = ref.matrix(op, basis, restr)
    v = ref.vec(psi, basis)
    z = w + 1j * delta + e
    full = ref.resolvent(H, v, z)
    out = {}
    for k in ks:
        al, be = ref.lanczos(H, v, k)
        out[k] = ref.contfrac(z, al, be)
    return basis, full, out


def green(n, op, psi, e, w, delta, k, restr, store, mode, par, swm=0.0, drop=()):
    from impurityModel.ed.spectra import getGreen

    o, p = dict(op), ref.to_code(psi, n)
    p0 = dict(p)
    r = None if restr is None else {frozenset(x): y for x, y in restr.items()}
    kw = dict(restrictions=r, h_dict=store, mode=mode, parallelization_mode=par)
    for d in drop:
        kw.pop(d)
    w0 = w.copy()
    g = getGreen(n, e, p, o, w, delta, k, swm, **kw)
    need(o == op and p == p0 and np.array_equal(w, w0), "arguments modified by getGreen", mode, par)
    return np.array(g)


def compare(g, want, where, tol=1e-8):
    need(g.shape == want.shape, where, "has shape", g.shape)
    need(np.all(np.isfinite(g)), where, "is not finite:", g)
    d = abs(g - want) / (1 + abs(want))
    need(d.max() <= tol, where, "gives", g[d.argmax()], "expected", want[d.argmax()], "at omega index", int(d.argmax()))


def run(case):
    res = Result()
    if case[0] == "graph":
        n, op = 4, graph(case[1], case[2])
        restr = RESTR[case[3]]
        for si, psi in enumerate(STATES):
            if not all(ref.allowed(m, restr) for m in psi):
                continue
            e, delta = (-0.3, 0.2) if si % 2 else (0.0, -0.15)
            dim = len(ref.closure(op, psi, restr))
            ks = sorted(set(range(1, min(dim, 8) + 3))) + [150]
            basis, full, cf = exact(op, psi, restr, e, W, delta, ks)
            for k in ks:
                for mode, par in MODES:
                    if k > 20 and mode == "dict" and si % 3:
                        continue
                    where = f"graph {case[1:]}, psi={psi}, krylov {k} (basis {len(basis)}), {mode}/{par}:"
                    g = green(n, op, psi, e, W, delta, k, restr, None if k % 2 else {}, mode, par)
                    compare(g, cf[k], where)
                    if k > dim:
                        compare(g, full, where + " (full resolvent)", 1e-7)
                    need(np.all(g.imag * delta <= 1e-10), where, "has the wrong sign of the imaginary part")
                    res.traces += 1
                    res.transitions += len(W)
            if si == 3:  # optional arguments left out
                compare(green(n, op, psi, e, W, delta, 9, None, None, "sparse", "serial", 1e-7, ("mode", "parallelization_mode", "h_dict") + (("restrictions",) if restr is None else ())),
                        exact(op, psi, None, e, W, delta, [9])[2][9], "default arguments")
            res.states += 1
            res.outcomes.add((dim, len(ks)) if False else "dim %d" % dim)
    elif case[0] == "tridiagonal":  # the Lanczos coefficients themselves
        import scipy.sparse

        from impurityModel.ed.finite import get_tridiagonal_krylov_vectors

        n, op = 4, graph(case[1], case[2])
        for psi in STATES:
            basis = sorted(ref.closure(op, psi, None))
            H, v = ref.matrix(op, basis), ref.vec(psi, basis)
            for k in range(1, len(basis) + 3):
                al, be = ref.lanczos(H, v, k)
                for mode, local in (("sparse", False), ("dense", False), ("sparse", True), (None, False)):
                    h, v0 = scipy.sparse.csr_matrix(H), v.copy()
                    args = () if mode is None else (local, mode)
                    a, b = get_tridiagonal_krylov_vectors(h, v0, k, *args)
                    where = f"get_tridiagonal_krylov_vectors of graph {case[1:]}, psi={psi}, size {k}, {mode}, local {local}:"
                    need(np.array_equal(v0, v) and np.array_equal(h.toarray(), H), where, "modified its arguments")
                    m = len(al)  # the reference stops where the Krylov space is exhausted
                    need(m <= len(a) <= k and m - 1 <= len(b) <= k, where, "gives", len(a), "and", len(b), "coefficients, expected", m)
                    need(np.allclose(a[:m], al, atol=1e-8) and np.allclose(np.abs(b[: m - 1]), be[: m - 1], atol=1e-8), where, "gives", a[:m], b[: m - 1], "expected", al, be)
                    need(len(b) < m or abs(b[m - 1]) < 1e-6, where, "goes on after exhaustion with", b[m - 1] if len(b) >= m else "")
                    res.traces += 1
                    res.transitions += 2 * m - 1
            res.states += 1
        res.outcomes.add("tridiagonal")
    elif case[0] == "weak":  # every energy and strength small: all Lanczos coefficients around 1e-4
        n, s = 4, 2.0**-13
        op = {p: v * s for p, v in graph(case[1], case[2]).items()}
        for si, psi in enumerate(STATES):
            e, delta = (-0.3 * s, 0.2 * s) if si % 2 else (0.0, -0.15 * s)
            dim = len(ref.closure(op, psi, None))
            ks = [1, 2, min(dim, 8) + 1]
            basis, full, cf = exact(op, psi, None, e, W * s, delta, ks)
            for k in ks:
                for mode, par in MODES:
                    where = f"weak graph {case[1:]}, psi={psi}, krylov {k} (basis {len(basis)}), {mode}/{par}:"
                    g = green(n, op, psi, e, W * s, delta, k, None, None, mode, par)
                    compare(g * s, cf[k] * s, where)
                    res.traces += 1
                    res.transitions += len(W)
            res.states += 1
        res.outcomes.add("weak")
    elif case[0] == "history":
        n, op = 4, graph(case[1], case[2])
        restr = RESTR[case[3]]
        ok = [p for p in STATES if all(ref.allowed(m, restr) for m in p)]
        first = STATES[case[4]]
        if first not in ok:
            return res
        sel = ok[::2]
        want = {i: exact(op, p, restr, 0.1, W[:3], 0.3, [2, 12])[2] for i, p in enumerate(STATES) if p in ok}
        for ki, mset in itertools.product((0, 1), (MODES[:3], MODES[2:])):
            for depth in (1, 2):
                for rest in itertools.product(sel, repeat=depth):
                    store = {}
                    for j, p in enumerate((first,) + rest):
                        mode, par = mset[(j + depth) % len(mset)]
                        k = (2, 12)[(j + ki) % 2]
                        g = green(n, op, p, 0.1, W[:3], 0.3, k, restr, store, mode, par)
                        compare(g, want[STATES.index(p)][k], f"history {case[1:]}, call {j} psi={p} krylov {k} {mode}/{par} after {(first,) + rest[:j]}:")
                        res.traces += 1
                        res.transitions += 3
                    for b, col in store.items():
                        x = {q: a for q, a in ref.apply(op, {ref.dec(b, n): 1}, restr).items() if abs(a) > 1e-6}
                        need(ref.close(ref.from_code(col, n), x), "history", case, "stored result of", b, "is", col)
                    res.states += 1
        res.outcomes.add("history")
    elif case[0] == "placed":  # the same small systems inside wide ones, between spectator electrons
        _, n, g, i = case
        restrs = [None, {(0, 1): (0, 1)}, {(0, 1): (1, 2), (2, 3): (0, 1), (0, 1, 2, 3): (1, 3)}]
        for place, spect in (((0, n // 2, n - 2, n - 1), 1 << 1 | 1 << n // 3), ((n - 1, 7, n // 2, 8), sum(1 << k for k in range(9, n // 2)) | 1 << 3), ((1, 2, 5, n // 2 + 1), 0)):
            op = ref.placed_op(graph(g, i), place)
            for si, psi0 in enumerate(STATES):
                for rr in restrs[si % 3 :: 3]:
                    if not all(ref.allowed(m, rr) for m in psi0):
                        continue
                    restr = ref.placed_restr(rr, place)
                    if restr is not None:
                        restr[tuple(range(0, n, 2))] = (0, n)
                        restr[tuple(range(n))] = (0, n - 1)
                    psi = ref.placed(psi0, place, spect)
                    basis, full, cf = exact(op, psi, restr, 0.1, W, 0.2, [1, 3, 9])
                    for k in (1, 3, 9):
                        for mode, par in MODES:
                            where = f"placed {case[1:]} at {place}, psi={psi0}, krylov {k}, {mode}/{par}:"
                            compare(green(n, op, psi, 0.1, W, 0.2, k, restr, {} if k == 3 else None, mode, par), cf[k], where)
                            res.traces += 1
                            res.transitions += len(W)
                    res.states += 1
        res.outcomes.add("placed")
    elif case[0] == "large":  # many product states, long meshes
        _, n, e, mi = case
        mode, par = MODES[mi]
        op, f = chain(n), ref.fock(n, e)
        psi = {m: (1 + (i % 3)) * (-1) ** (i // 2) for i, m in enumerate(f[:: (7, 1)[n < 13]])}
        nn = np.sqrt(sum(abs(a) ** 2 for a in psi.values()))
        psi = {m: a / nn for m, a in psi.items()}
        H, v = ref.matrix(op, f), ref.vec(psi, f)
        long = np.linspace(-9, 11, 1201)
        for k, w in ((6, long), (25, W), (11, long[:60])):
            if mode == "dict" and (k > 11 or n > 11):
                continue
            want = ref.contfrac(w + 0.25j - 2.0, *ref.lanczos(H, v, k))
            g = green(n, op, psi, -2.0, w, 0.25, k, None, None, mode, par)
            compare(g, want, f"large {case[1:]}, krylov {k}, {len(w)} energies, {mode}/{par}:", 1e-5)
            res.traces += 1
            res.transitions += len(w)
        res.states += 1
        res.outcomes.add("large")
    elif case[0] == "chain":
        n, e, v = case[1:]
        op = chain(n)
        f = ref.fock(n, e)
        restr = [None, {tuple(range(3)): (0, 2)}, {tuple(range(n)): (e, e), (0, n - 1): (0, 1)}, None][v]
        psi = {m: (1 + (i % 3)) * (1j if v == 1 else 1) ** i * (-1) ** (i // 2) for i, m in enumerate(f[:: 3 + v]) if ref.allowed(m, restr)}
        if v == 3:
            psi = {f[len(f) // 2]: 1.0}
        nn = np.sqrt(sum(abs(a) ** 2 for a in psi.values()))
        psi = {m: a / nn for m, a in psi.items()}
        basis, full, cf = exact(op, psi, restr, -2.0, W, 0.25, [1, 2, 5, 10])
        for mode, par in MODES:
            for k in (1, 2, 5, 10):
                compare(green(n, op, psi, -2.0, W, 0.25, k, restr, None, mode, par), cf[k], f"chain {case}, krylov {k} {mode}/{par}:", 1e-6)
            if mode != "dict":
                # no reorthogonalisation: not converged to machine precision
                compare(green(n, op, psi, -2.0, W, 0.25, 150, restr, None, mode, par), full, f"chain {case}, krylov 150 {mode}/{par}:", 1e-3)
            res.traces += 5
            res.transitions += 5 * len(W)
        res.states += 1
        res.outcomes.add("chain")
    else:
        for mode, par in MODES:
            for op in (graph(63, 2), {}):
                for w in (W, W[:1]):
                    g = green(4, op, {}, -1.0, w, 0.1, 5, None, None, mode, par)
                    need(g.shape == w.shape and np.all(g == 0), "empty state", mode, par, "gives", g)
                    res.traces += 1
                    res.transitions += len(w)
        res.states += 1
        res.outcomes.add("empty")
    return res
