"""C15: lowest eigenstates, both diagonalisation modes.

Every hopping graph on 4 spin-orbitals with three kinds of interaction, every
particle-number sector and the whole Fock space in two basis orders, every number of
requested states from 1 to two more than the basis holds, both modes and four weight
cut-offs, so that degenerate and non-degenerate spectra, exhausted and truncated requests
are all covered. Systems of two sectors (symmetric/anti-symmetric or unconnected) larger than
the iterative algorithm's space have all lowest states in one of them. Larger non-degenerate chains and the multiplets of d^n atoms reach the
iterative algorithm proper. Oracle: dense diagonalisation of the independently built
matrix; a returned state must lie in the exact eigenspace up to the weight it dropped.
"""

import itertools

import numpy as np

from mc import ref, refham, wigner
from mc.checks.c08 import PAIRS
from mc.harness import Result, need

ID = "C15"
MEANING = "states: (Hamiltonian, basis order) pairs; transitions: eigenstates compared; traces: diagonalisations by the real code"
CUTS = [0, None, 0.02, 0.3]


def BOUNDS(tier):
    return dict(graphs=64, interactions=3, requested="1..size+2 (graphs)", chains=len(CHAINS[tier]), two_sector_systems=9, large="462 and 1287 product states", atoms="d^n with spin-orbit coupling and field")


CHAINS = {"quick": [(6, 3), (7, 3), (8, 4), (9, 3)], "thorough": [(6, 3), (7, 3), (8, 4), (9, 3), (9, 4), (10, 5), (11, 4), (12, 3)]}


def cases(tier):
    out = [["graph", e, i] for e in sorted(range(64), key=lambda x: (bin(x).count("1"), x)) for i in range(3)]
    out += [["chain", n, e] for n, e in CHAINS[tier]]
    out += [["atom", d, t] for d in (1, 9, 2, 8, 3, 7, 4, 6, 5) for t in range(4 if tier == "thorough" else 2 if d not in (4, 5, 6) else 1)]
    out += [["sectors", pair, layout] for pair in range(3) for layout in range(3)]
    out += [["large", n, e] for n, e in ([(11, 5), (13, 5)] if tier == "quick" else [(11, 5), (13, 5), (13, 6), (14, 6)])]
    out += [["degenerate", 8, 5]]
    return out


def graph(edges, inter):
    op = {}
    for k, (i, j) in enumerate(PAIRS):
        if edges >> k & 1:
            v = (-1.0 + 0.5j * k, 1.0, 0.7 + 0.1j * k * k)[inter]
            op[((i, "c"), (j, "a"))] = v
            op[((j, "c"), (i, "a"))] = np.conj(v)
    if inter == 1:
        op[((0, "c"), (1, "c"), (1, "a"), (0, "a"))] = 1.5
        op[((2, "c"), (3, "c"), (3, "a"), (2, "a"))] = 1.5
    if inter == 2:
        op[((0, "c"), (1, "c"), (3, "a"), (2, "a"))] = 0.4 + 0.3j
        op[((2, "c"), (3, "c"), (1, "a"), (0, "a"))] = 0.4 - 0.3j
        for i in range(4):
            op[((i, "c"), (i, "a"))] = -5.0 + 1.1 * i
        op[((0, "c"), (0, "a"), (3, "c"), (3, "a"))] = 2.2
    return op


def chain(n):
    op = {}
    for i in range(n):
        op[((i, "c"), (i, "a"))] = 0.37 * i - 0.11 * ((i * i * 7) % 5) - 3
        j = (i + 1) % n
        v = -1 + 0.2j * (i + 1)
        op[((i, "c"), (j, "a"))] = v
        op[((j, "c"), (i, "a"))] = np.conj(v)
        op[((i, "c"), (i, "a"), (j, "c"), (j, "a"))] = 0.8 + 0.05 * i
    return op


def sectors(pair, layout):
    """
    One electron on 2 x 45 sites in two sectors (anti-symmetric/symmetric, or unconnected) which
    are larger than the space of the iterative algorithm; the lowest states belong to one of them.
    Layout 0: alternating, 1: one after the other, 2: one after the other, reversed.
    """
    half = 45
    site = [lambda i, s: 2 * i + s, lambda i, s: i + half * s, lambda i, s: 2 * half - 1 - i - half * s][layout]
    op = {}

    def hop(i, j, v):
        op[((i, "c"), (j, "a"))] = v
        op[((j, "c"), (i, "a"))] = np.conj(v)

    for i in range(half):
        if pair == 0:  # the anti-symmetric states are lowest
            hop(site(i, 0), site(i, 1), 2.0)
        elif pair == 1:  # complex: the states (1, i) are lowest
            hop(site(i, 0), site(i, 1), 2.0j)
        else:  # unconnected: the second half is lowest
            for s in range(2):
                op[((site(i, s), "c"), (site(i, s), "a"))] = -3.0 * s
        for s in range(2):
            if i:
                hop(site(i, s), site(i - 1, s), -0.5)
    n = 2 * half
    return n, op, [1 << i for i in range(n)]


def atom(d, t):
    nB = {1: 0, 2: 0}
    h = [(0, 0, 1e-4), (0.02, -0.01, 0.03), (0, 0, -0.2), (0.001, 0, 0)][t] if t >= 0 else (0, 0, 0)
    two, one = refham.impurity([7.5, 0, 9.9, 0, 6.6], [0, 0, 0], [8.9, 0, 6.8], [0, 5.0, 0, 2.8], 11.6, 0.096, d, 0, h)
    ix = refham.pos(nB)
    op = {tuple((ix[x], a) for x, a in p): v for p, v in wigner.add(two, one).items()}
    basis = [0b111111 | ref.mask_of(c) << 6 for c in itertools.combinations(range(10), d)]
    return op, basis


def groups(E, tol=1e-7):
    out = [[0]]
    for i in range(1, len(E)):
        if E[i] - E[i - 1] > tol:
            out.append([])
        out[-1].append(i)
    return out


def verify(n, op, basis, k, mode, cut, exact, res, where):
    from impurityModel.ed.finite import eigensystem

    E, V = exact
    size = len(basis)
    code = tuple(ref.enc(m, n) for m in basis)
    o = dict(op)
    kw = {} if cut is None else dict(slaterWeightMin=cut)
    if mode != "default":
        kw["groundDiagMode"] = mode
    where = f"{where}, {k} of {size} states, mode {mode}, cut-off {cut}:"
    es, psis = eigensystem(n, o, code, k, **kw)
    need(o == op, where, "Hamiltonian modified")
    want = min(k, size)
    c = 1e-7 if cut is None else cut
    need(len(es) == want and len(psis) == want, where, "gives", len(es), "energies and", len(psis), "states")
    es = np.array(es)
    need(es.dtype.kind == "f" and np.all(np.diff(es) >= -1e-9), where, "energies not real and ascending", es)
    scale = 1 + abs(E).max()
    # the iterative algorithm may mix states of almost equal energy
    window = 1e-5 if mode == "full" else 1e-2
    tol = (1e-9 if mode == "full" else 1e-7) * scale
    need(np.all(abs(es - E[:want]) <= tol), where, "energies", es, "expected", E[:want])
    idx = {m: i for i, m in enumerate(basis)}
    M = np.zeros((size, want), dtype=complex)
    for j, p in enumerate(psis):
        for b, a in p.items():
            m = ref.dec(b, n)
            need(m in idx and ref.enc(m, n) == b, where, "state", j, "holds a product state outside the basis", b)
            M[idx[m], j] = a
    w = abs(M) ** 2
    for j in range(want):
        need(len(psis[j]) == np.count_nonzero(M[:, j]) or c == 0, where, "state", j, "stores zeros")
        need(np.all((w[:, j] == 0) | (w[:, j] >= c * (1 - 1e-9))), where, "state", j, "keeps an amplitude below the cut-off")
        missing = size - np.count_nonzero(w[:, j])
        lost = 1 - w[:, j].sum()
        need(-1e-8 <= lost <= missing * c + 1e-8, where, "state", j, "has norm squared", w[:, j].sum())
        # distance to the exact eigenspace is at most the dropped part
        near = np.flatnonzero(abs(E - es[j]) < window)
        P = V[:, near]
        r = M[:, j] - P @ (P.conj().T @ M[:, j])
        need(np.linalg.norm(r) <= np.sqrt(max(lost, 0)) + 1e-3, where, "state", j, "is not an eigenstate, deviation", np.linalg.norm(r))
        if len(near) == 1 and (len(E) == 1 or np.min(np.delete(abs(E - es[j]), near[0])) > 1e-2):
            wx = abs(P[:, 0]) ** 2
            sure = abs(wx - c) > 1e-5
            need(np.all(((wx >= c) == (w[:, j] > 0))[sure] | (wx[sure] < 1e-10)), where, "state", j, "dropped or kept the wrong product states")
            need(np.all(abs(w[:, j] - wx)[w[:, j] > 0] < 1e-4), where, "state", j, "has weights", w[:, j], "expected", wx)
        res.transitions += 1
    G = M.conj().T @ M
    lost = np.sqrt(np.maximum(0, 1 - w.sum(axis=0)))
    bad = np.argwhere(np.triu(abs(G) > 2 * (lost[:, None] + lost[None, :]) + 1e-6, 1))
    if len(bad):
        need(False, where, "states", bad[0], "overlap", abs(G[bad[0][0], bad[0][1]]))
    if c <= 1e-7:
        # complete groups span the exact eigenspaces
        for g in groups(E, window):
            if g[-1] < want:
                A, B = M[:, g], V[:, g]
                d = np.linalg.norm(A @ A.conj().T - B @ B.conj().T)
                need(d <= (5e-4 if mode == "full" else 5e-3) * len(g) + 4 * np.sqrt(size * c), where, "states", g, "span another space than the exact eigenstates, deviation", d)
    res.traces += 1


def run(case):
    res = Result()
    if case[0] == "graph":
        n, op = 4, graph(case[1], case[2])
        for e in (0, 1, 2, 3, 4, None):
            f = ref.fock(n, e)
            for order in (0, 1):
                basis = f if order == 0 else f[::-2] + f[-2::-2]
                H = ref.matrix(op, basis)
                exact = np.linalg.eigh(H)
                for k in sorted(set(range(1, min(len(f), 6) + 3)) | {len(f) - 2, len(f) - 1, len(f), len(f) + 2} & set(range(1, 99))):
                    for mode in ("Lanczos", "full") if order or k % 2 else ("default",):
                        for cut in CUTS[order::2]:
                            verify(n, op, basis, k, mode, cut, exact, res, f"graph {case[1:]}, {e} electrons, order {order}")
                res.states += 1
        res.outcomes.add("degenerate" if len(groups(exact[0])) < 16 else "non-degenerate")
        return res
    if case[0] == "chain":
        n, e = case[1:]
        op, basis = chain(n), ref.fock(n, e)[::-1]
        ks = [1, 2, 3, 5, 10, 20, len(basis) - 2, len(basis) - 1, len(basis), len(basis) + 3]
        cuts = CUTS
    elif case[0] == "large":
        n, e = case[1:]
        op, basis = chain(n), ref.fock(n, e)[::-1]
        ks = [1, 4] if n > 11 else [3, 12]
        cuts = [None, 0.02]
    elif case[0] == "sectors":
        n, op, basis = sectors(*case[1:])
        ks = [1, 2, 4, 7]
        cuts = CUTS
    else:
        n = 16
        op, basis = atom(case[1], case[2] if case[0] == "atom" else -1)
        ks = [1, 2, 5, 10, len(basis), len(basis) + 1] if case[0] == "atom" else [case[2]]
        cuts = [None, 0] if case[0] == "atom" else [None]
    H = ref.matrix(op, basis)
    need(abs(H - H.conj().T).max() < 1e-9, "reference Hamiltonian not Hermitian")
    exact = np.linalg.eigh((H + H.conj().T) / 2)
    if case[0] == "degenerate":
        verify(n, op, basis, ks[0], "full", None, exact, res, str(case))
        from impurityModel.ed.finite import eigensystem

        es, _ = eigensystem(n, op, tuple(ref.enc(m, n) for m in basis), ks[0], "Lanczos")
        need(np.all(abs(es - exact[0][: ks[0]]) < 1e-6), "Lanczos misses members of a degenerate multiplet: energies", es, "expected", exact[0][: ks[0]])
        res.states += 1
        return res
    for k in ks:
        for mode in ("Lanczos", "full") if case[0] != "large" or n < 13 or k == 1 else ("Lanczos",):
            for cut in cuts if k <= 10 else cuts[:2] if case[0] == "chain" else cuts[:1]:
                verify(n, op, basis, k, mode, cut, exact, res, str(case))
    res.states += 1
    res.outcomes.add(case[0])
    return res
