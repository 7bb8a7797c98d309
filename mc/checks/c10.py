"""C10: Coulomb operator.

All Gaunt coefficients for l, l' <= 3 (4), all multipoles, called and printed; all matrix elements of the
interaction for every combination of four shells l <= 2 (3) and every unit Slater
integral, compared with exact rational 3j algebra (mc/wigner.py) through the
addition theorem; the spin-dependent operators as canonical two-body operators; the
2p-3d operator for every unit parameter and one generic choice, hermiticity,
commutators with all components of total orbital and spin momentum over the
complete two-electron space, and the d2 and p2 multiplet energies of the literature.
"""

import contextlib
import io
import itertools

import numpy as np

from mc import ref, wigner
from mc.harness import Result, need

ID = "C10"
MEANING = "states: parameter choices; transitions: matrix elements compared with exact values; traces: operators compared completely"
TOL = 1e-10


def BOUNDS(tier):
    return dict(gaunt="l,l' <= %d, k <= l+l'+1" % (3 if tier == "quick" else 4), shells="l <= 2 all 81 combinations" if tier == "quick" else "l <= 3 all 256 combinations",
                slater="every unit integral", small_integrals=TINY)


def cases(tier):
    top = 3 if tier == "quick" else 4
    out = [["gaunt", l, lp] for l in range(top + 1) for lp in range(top + 1)]
    ls = range(3) if tier == "quick" else range(4)
    out += [["u", *q] for q in itertools.product(ls, repeat=4)]
    if tier == "quick":
        out += [["u", 3, 3, 3, 3], ["u", 2, 3, 2, 3], ["u", 3, 2, 2, 3]]
    for i in range(16):
        out.append(["2p3d", i])
    out.append(["2p3d", "generic"])
    out.append(["2p3d", "default"])
    out.append(["2p3d", "tiny"])
    out.append(["multiplet"])
    return out


PAR = [("Fdd", k) for k in range(5)] + [("Fpp", k) for k in range(3)] + [("Fpd", k) for k in range(3)] + [("Gpd", k) for k in range(4)]
GENERIC = dict(Fdd=[7.5, 0.1, 9.9, 0.2, 6.6], Fpp=[1.25, 0.3, 0.5], Fpd=[8.9, 0.4, 6.8], Gpd=[0.7, 5.0, 0.9, 2.8])
DEFAULT = dict(Fdd=(9, 0, 8, 0, 6), Fpp=(20, 0, 8), Fpd=(10, 0, 8), Gpd=(0, 3, 0, 2))


TINY = 1e-6  # eV, size of the small Slater integrals


def same(got, want, where, res, scale=1):
    for k in set(got) | set(want):
        need(abs(got.get(k, 0) - want.get(k, 0)) < TOL * scale, where, "element", k, "is", got.get(k, 0), "expected", want.get(k, 0))
    res.transitions += len(set(got) | set(want))
    res.traces += 1


def index(op, labels):
    pos = {lab: i for i, lab in enumerate(labels)}
    return {tuple((pos[x], a) for x, a in p): v for p, v in op.items()}


def total(labels):
    """Lz, L+, Sz, S+ as one-body operators."""
    pos = {lab: i for i, lab in enumerate(labels)}
    lz, lp, sz, sp = {}, {}, {}, {}
    for l, s, m in labels:
        i = pos[l, s, m]
        lz[((i, "c"), (i, "a"))] = m
        sz[((i, "c"), (i, "a"))] = s - 0.5
        if m < l:
            lp[((pos[l, s, m + 1], "c"), (i, "a"))] = np.sqrt(l * (l + 1) - m * (m + 1))
        if s == 0:
            sp[((pos[l, 1, m], "c"), (i, "a"))] = 1.0
    return [lz, lp, sz, sp]


def judge_table(finite, args, l, lp):
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        finite.printGaunt(*args)
    rows = [x.split() for x in text.getvalue().splitlines()]
    rows = [[float(y) for y in x] for x in rows if x and not x[0].startswith("k")]
    want = [[wigner.ckq(l, m, k, m - mp, lp, mp) for mp in range(-lp, lp + 1)] for k in range(l + lp + 1) for m in range(-l, l + 1)]
    need(len(rows) == len(want) and all(len(x) == 2 * lp + 1 for x in rows), "printGaunt", args, "prints", text.getvalue())
    for i, (x, y) in enumerate(zip(rows, want)):
        for j in range(2 * lp + 1):
            need(abs(x[j] - y[j]) <= 0.00501, "printGaunt", args, "row", i, "column", j, "is", x[j], "expected", y[j])


def run(case):
    from impurityModel.ed import finite

    res = Result()
    if case[0] == "gaunt":
        _, l, lp = case
        for k in range(l + lp + 2):
            for m in range(-l, l + 1):
                for mp in range(-lp, lp + 1):
                    got = finite.gauntC(k, l, m, lp, mp)
                    want = wigner.ckq(l, m, k, m - mp, lp, mp)
                    need(abs(got - want) < TOL, "gauntC", (k, l, m, lp, mp), "is", got, "expected", want)
                    res.transitions += 1
        # the printed table: one block per multipole, one row per m, one column per m'
        for args in [(l, lp)] + [()] * ((l, lp) == (2, 2)):
            judge_table(finite, args, l, lp)
        res.states = 1
        res.outcomes = {"gaunt"}
    elif case[0] == "u":
        l1, l2, l3, l4 = case[1:]
        top = min(l1 + l4, l2 + l3)
        for k in range(top + 1):
            R = [0] * (top + 1)
            R[k] = 1.5
            ms = [range(-l, l + 1) for l in (l1, l2, l3, l4)]
            want = {}
            for m1, m2, m3, m4 in itertools.product(*ms):
                w = wigner.coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R)
                if m1 + m2 == m3 + m4 or (m1 + 2 * m2 + 3 * m3 + 5 * m4) % 11 == 0:
                    g = finite.getU(l1, m1, l2, m2, l3, m3, l4, m4, R)
                    need(abs(g - w) < TOL, "getU", (l1, m1, l2, m2, l3, m3, l4, m4, R), "is", g, "expected", w)
                    res.transitions += 1
                if w:
                    want[(l1, m1), (l2, m2), (l3, m3), (l4, m4)] = w / 2
            if (l1 + l4 + k) % 2 and (l2 + l3 + k) % 2:
                need(not want, "model: parity")
            same(finite.getNoSpinUop(l1, l2, l3, l4, list(R)), want, f"getNoSpinUop {case[1:]} R={R}", res)
            arg = list(R)
            op = finite.getUop(l1, l2, l3, l4, arg)
            need(arg == R, "Slater integrals modified")
            for p in op:
                need(p[0][0] != p[1][0] and p[2][0] != p[3][0], "Pauli-forbidden process", p)
                need(p[0][0][1] == p[3][0][1] and p[1][0][1] == p[2][0][1], "spin not conserved along a leg", p)
            want = wigner.canonical(wigner.uop(l1, l2, l3, l4, R))
            same(wigner.canonical(op), want, f"getUop {case[1:]} R={R}", res)
            arg = [x * TINY for x in R]
            same(wigner.canonical(finite.getUop(l1, l2, l3, l4, arg)), {k: v * TINY for k, v in want.items()}, f"getUop {case[1:]} R={arg}", res, TINY)
            res.states += 1
        res.outcomes = {"u"}
    elif case[0] == "2p3d":
        if case[1] == "default":
            op = finite.get2p3dSlaterCondonUop()
            par = DEFAULT
        else:
            if case[1] == "generic":
                par = GENERIC
            elif case[1] == "tiny":  # every second integral small
                par = {k: [x * (TINY if i % 4 else 1) for i, x in enumerate(v)] for k, v in GENERIC.items()}
            else:
                par = dict(Fdd=[0] * 5, Fpp=[0] * 3, Fpd=[0] * 3, Gpd=[0] * 4)
                if case[1] < 15:
                    par[PAR[case[1]][0]][PAR[case[1]][1]] = 2.0
            op = finite.get2p3dSlaterCondonUop(**{k: list(v) for k, v in par.items()})
        want = wigner.canonical(wigner.u2p3d(**par))
        got = wigner.canonical(op)
        same(got, want, f"get2p3dSlaterCondonUop({par})", res)
        for (c, d), v in got.items():
            # (c+_i c+_j c_k c_l)^+ = c+_l c+_k c_j c_i = c+_k c+_l c_i c_j
            need(abs(got.get((d, c), 0) - np.conj(v)) < TOL, "2p-3d operator not Hermitian at", c, d)
        labels = [(l, s, m) for l in (1, 2) for s in range(2) for m in range(-l, l + 1)]
        states = ref.fock(16, 2)
        h = ref.matrix(index(op, labels), states)
        for name, o in zip(("Lz", "L+", "Sz", "S+"), total(labels)):
            t = ref.matrix(o, states)
            need(abs(h @ t - t @ h).max() < 1e-9, "2p-3d operator", par, "does not commute with", name)
            res.transitions += len(states) ** 2
        res.states = 1
        res.outcomes = {"2p3d"}
    else:
        # d2: literature multiplet energies in terms of F0, F2 = 49 F_2, F4 = 441 F_4
        for F0, F2, F4 in ((1.0, 0, 0), (0, 49.0, 0), (0, 0, 441.0), (7.5, 9.9, 6.6)):
            labels = [(2, s, m) for s in range(2) for m in range(-2, 3)]
            st = ref.fock(10, 2)
            e = np.linalg.eigvalsh(ref.matrix(index(finite.getUop(2, 2, 2, 2, [F0, 0, F2, 0, F4]), labels), st))
            a, b = F2 / 49, F4 / 441
            want = sorted([F0 - 8 * a - 9 * b] * 21 + [F0 + 7 * a - 84 * b] * 9 + [F0 - 3 * a + 36 * b] * 5 + [F0 + 4 * a + b] * 9 + [F0 + 14 * a + 126 * b])
            need(np.allclose(e, want, atol=1e-9), "d2 multiplet energies", (F0, F2, F4), e, want)
            res.transitions += 45
        for F0, F2 in ((1.0, 0), (0, 25.0), (20, 8)):
            labels = [(1, s, m) for s in range(2) for m in range(-1, 2)]
            st = ref.fock(6, 2)
            e = np.linalg.eigvalsh(ref.matrix(index(finite.getUop(1, 1, 1, 1, [F0, 0, F2]), labels), st))
            a = F2 / 25
            want = sorted([F0 - 5 * a] * 9 + [F0 + a] * 5 + [F0 + 10 * a])
            need(np.allclose(e, want, atol=1e-9), "p2 multiplet energies", (F0, F2), e, want)
            res.transitions += 15
        res.states = 7
        res.traces = 7
        res.outcomes = {"multiplets"}
    return res
