"""C13: static expectation values.

All 1024 product states of the 3d shell, all pairs of product states with 1, 2, 8 or 9
electrons (thorough: every occupation up to 3 and from 7), one generic superposition of every whole
occupation sector and mixtures of sectors, in several arrangements of shells
and bath states (pairs: in turn; everything else: all) with other shells and baths empty, partly and fully occupied:
every reported number, every density matrix element and every ladder operator is
compared with the exact operators of the model.
"""

import itertools
from functools import lru_cache

import numpy as np

from mc import ref, refham
from mc.harness import Result, need

ID = "C13"
MEANING = "states: many-body states; transitions: numbers compared; traces: real calls"
# arrangement, occupied labels outside the 3d shell
ARR = [
    ({2: 0}, []),
    ({1: 0, 2: 0}, [(1, 0, -1), (1, 0, 1), (1, 1, 0)]),
    ({1: 0, 2: 10}, [(1, s, m) for s in range(2) for m in (-1, 0, 1)] + [(2, 0), (2, 4), (2, 9)]),
    ({2: 3, 1: 2}, [(1, 0, 0), (2, 1), (1, 1)]),
    ({0: 1, 2: 1, 1: 0}, [(0, 1, 0), (2, 0)]),
    ({1: 1, 2: 2}, [(1, 0)]),
    ({1: 0, 2: 30}, [(1, s, m) for s in range(2) for m in (-1, 0, 1)] + [(2, 0), (2, 7), (2, 29)]),
    ({1: 30, 2: 20, 3: 12, 0: 40}, [(3, 0, 0), (1, 1, 1), (1, 29), (2, 19), (3, 3), (0, 39)]),
]
NARROW = 6


def BOUNDS(tier):
    return dict(product_states=1024, pairs="all in sectors N=1,2,8,9" if tier == "quick" else "all in sectors N=1,2,3,7,8,9", arrangements=len(ARR))


def cases(tier):
    out = []
    for n in range(11):
        f = ref.fock(10, n)
        for k in range(0, len(f), 32):
            out.append(["single", n, k, 32])
    for n in (1, 2, 8, 9) if tier == "quick" else (1, 2, 3, 7, 8, 9):
        k = len(ref.fock(10, n))
        for i in range(k):
            out.append(["pair", n, i])
    out += [["sector", n, a] for n in range(11) for a in range(len(ARR))]
    out += [["mixed", i, a] for i in range(4) for a in range(len(ARR))] + [["mixed", -1, a] for a in (0, 2, 7)]
    return out


@lru_cache(None)
def setup(a):
    nBaths, extra = ARR[a]
    ix = refham.pos(nBaths)
    d = [ix[2, s, m] for s in range(2) for m in range(-2, 3)]
    return dict(nBaths), ix, d, sum(1 << ix[x] for x in extra), len(ix)


def embed(m, d, extra):
    """State of the 10 3d spin-orbitals (by label order) as a state of the whole system."""
    return extra | sum(1 << d[i] for i in range(10) if m >> i & 1)


@lru_cache(None)
def operators(a):
    nBaths, ix, d, extra, n = setup(a)
    one = lambda x, y: ((ix[x], "c"), (ix[y], "a"))  # noqa: E731
    ms = range(-2, 3)
    ops = {
        "Lz": {one((2, s, m), (2, s, m)): m for s in range(2) for m in ms},
        "Sz": {one((2, s, m), (2, s, m)): s - 0.5 for s in range(2) for m in ms},
        "L+": {one((2, s, m + 1), (2, s, m)): np.sqrt(6 - m * (m + 1)) for s in range(2) for m in range(-2, 2)},
        "L-": {one((2, s, m - 1), (2, s, m)): np.sqrt(6 - m * (m - 1)) for s in range(2) for m in range(-1, 3)},
        "S+": {one((2, 1, m), (2, 0, m)): 1.0 for m in ms},
        "S-": {one((2, 0, m), (2, 1, m)): 1.0 for m in ms},
    }
    return ops


def inner(x, y):
    return sum(np.conj(v) * y[k] for k, v in x.items() if k in y)


def check(a, psi, res, full=True):
    from impurityModel.ed import finite

    nBaths, ix, d, extra, n = setup(a)
    psi = {embed(m, d, extra): v for m, v in psi.items()}
    code = ref.to_code(psi, n)
    c0 = dict(code)
    ops = operators(a)
    out = {k: ref.apply(o, psi) for k, o in ops.items()}
    where = f"nBaths={nBaths} psi={ {ref.occ(m): v for m, v in psi.items()} if len(psi) < 4 else len(psi)}"

    def num(name, got, want):
        need(abs(got - want) < 1e-11, name, where, "is", got, "expected", want)
        res.transitions += 1

    for name, k in (("applyLz3d", "Lz"), ("applySz3d", "Sz"), ("applyLplus3d", "L+"), ("applyLminus3d", "L-"), ("applySplus3d", "S+"), ("applySminus3d", "S-")):
        got = ref.from_code(getattr(finite, name)(nBaths, code), n)
        need(ref.close(got, out[k]), name, where, "gives", got, "expected", out[k])
        need(code == c0, name, "changed the state")
        res.transitions += len(got)
    num("getLz3d", finite.getLz3d(nBaths, code), inner(psi, out["Lz"]).real if psi else 0)
    num("getSz3d", finite.getSz3d(nBaths, code), inner(psi, out["Sz"]).real)
    n2 = lambda x: sum(abs(v) ** 2 for v in x.values())  # noqa: E731
    # L^2 = Lz^2 + Lz + L- L+
    num("getLsqr3d", finite.getLsqr3d(nBaths, code), n2(out["Lz"]) + inner(psi, out["Lz"]).real + n2(out["L+"]))
    num("getSsqr3d", finite.getSsqr3d(nBaths, code), n2(out["Sz"]) + inner(psi, out["Sz"]).real + n2(out["S+"]))
    # density matrix: <c_j^+ c_i>
    rem = {}
    for l in nBaths:
        for s in range(2):
            for m in range(-l, l + 1):
                rem[l, s, m] = ref.apply({((ix[l, s, m], "a"),): 1}, psi)
    rho = {l: np.array([[inner(rem[l, sj, mj], rem[l, si, mi]) for sj in range(2) for mj in range(-l, l + 1)] for si in range(2) for mi in range(-l, l + 1)]) for l in nBaths}
    for l in nBaths:
        num("getTraceDensityMatrix l=%d" % l, finite.getTraceDensityMatrix(nBaths, code, l), np.trace(rho[l]).real)
    num("getTraceDensityMatrix", finite.getTraceDensityMatrix(nBaths, code), np.trace(rho[2]).real)
    u = np.kron(np.eye(2), refham.cubic())
    cub = np.conj(u.T) @ rho[2] @ u
    occ = [cub[0, 0] + cub[1, 1], cub[5, 5] + cub[6, 6], cub[2, 2] + cub[3, 3] + cub[4, 4], cub[7, 7] + cub[8, 8] + cub[9, 9]]
    for i, (x, y) in enumerate(zip(finite.getEgT2gOccupation(nBaths, code), occ)):
        num("getEgT2gOccupation[%d]" % i, x, y.real)
    if full:
        for l in nBaths if 1 not in nBaths or a in (1, 3) else (2,):
            lab = [(l, s, m) for s in range(2) for m in range(-l, l + 1)]
            got = finite.getDensityMatrix(nBaths, code, l)
            need(set(got) <= set(itertools.product(lab, lab)), "getDensityMatrix has labels", list(got)[:3])
            for i, x in enumerate(lab):
                for j, y in enumerate(lab):
                    num(f"getDensityMatrix[{x},{y}]", got.get((x, y), 0), rho[l][i, j])
        got = finite.getDensityMatrixCubic(nBaths, code)
        # the signs of the cubic orbitals are a convention: take those of the code's own transformation
        uc = np.kron(np.eye(2), finite.get_spherical_2_cubic_matrix())
        cub = np.conj(uc.T) @ rho[2] @ uc
        lab = [(s, i) for s in range(2) for i in range(5)]
        need(set(got) <= set(itertools.product(lab, lab)), "getDensityMatrixCubic has labels", list(got)[:3])
        for i, x in enumerate(lab):
            for j, y in enumerate(lab):
                num(f"getDensityMatrixCubic[{x},{y}]", got.get((x, y), 0), cub[i, j])
    need(code == c0, "the state was changed")
    res.states += 1
    res.traces += 13


def run(case):
    res = Result()
    if case[0] == "single":
        _, n, k, c = case
        for i, m in enumerate(ref.fock(10, n)[k : k + c]):
            for a in range(len(ARR)):
                check(a, {m: (1, 1j, -1, 0.6 + 0.8j)[i % 4]}, res, full=(i + a) % 4 == 0)
        res.outcomes = {"N=%d" % n}
    elif case[0] == "pair":
        _, n, i = case
        f = ref.fock(10, n)
        for j in range(i + 1, len(f)):
            check((i + j) % len(ARR), {f[i]: 0.6, f[j]: (0.8, -0.8, 0.8j, -0.48 + 0.64j)[j % 4]}, res, full=n in (1, 9))
            # a small admixture: every density matrix element it causes is still reported
            if n in (1, 9) or (i + j) % 5 == 0:
                check((i + j + 1) % len(ARR), {f[i]: 1.0, f[j]: (4e-6, 4e-6j)[j % 2]}, res)
        if i + 1 == len(f):
            check(0, {f[i]: 1}, res)
        res.outcomes = {"pairs N=%d" % n}
    elif case[0] == "sector":
        _, n, a = case
        f = ref.fock(10, n)
        psi = {m: (1 + k % 7) * np.exp(1j * (k * k % 17)) for k, m in enumerate(f)}
        nrm = np.sqrt(sum(abs(v) ** 2 for v in psi.values()))
        check(a, {m: v / nrm for m, v in psi.items()}, res)
        res.outcomes = {"sector"}
    else:
        _, i, a = case
        ms = [m for k, m in enumerate(range(1024)) if i < 0 or k % (3 + 2 * i) == i]
        psi = {m: (1 + k % 5) * np.exp(1j * (k % 13)) for k, m in enumerate(ms)}
        nrm = np.sqrt(sum(abs(v) ** 2 for v in psi.values()))
        check(a, {m: v / nrm for m, v in psi.items()}, res)
        res.outcomes = {"mixed"}
    return res
