"""C19: dipole and photoemission operators.

Every polarisation vector with components from a set of 7 real and complex values
(343 vectors, given as lists, tuples and arrays), every ordered pair of shells l1 != l2
up to l = 3 and several bath arrangements, all ordered lists of up to 3 vectors, compared
with exact rational 3j algebra in normal-ordered form; photoemission operators for
every shell and arrangement.
"""

import itertools
from math import sqrt

import numpy as np

from mc import refham, wigner
from mc.harness import Result, need

ID = "C19"
MEANING = "states: (arrangement, polarisation list) inputs; transitions: matrix elements compared; traces: operators returned by the real code"
COMP = [0, 1, -1, 0.6, 1j, -0.5j, 0.3 - 0.4j]
ARR = [((1, 0), (2, 0)), ((1, 0), (2, 10)), ((1, 6), (2, 10)), ((1, 3), (2, 20)), ((2, 60), (1, 150))]
PAIRS = [(a, b) for a in range(4) for b in range(4) if a != b]


def BOUNDS(tier):
    return dict(components=str(COMP), vectors=343, shells=PAIRS, lists="all ordered lists of 3 of 8 vectors")


def cases(tier):
    out = [["vec", a, i, j] for a in range(len(ARR)) for i in range(7) for j in range(7)]
    out += [["shells", a, b] for a, b in PAIRS]
    out += [["tiny", a] for a in range(len(ARR))]
    out += [["lists", a, i] for a in range(len(ARR)) for i in range(8)]
    out += [["pes", l] for l in range(4)]
    return out


def normal(op, where="operator"):
    """One-body operator {(i, j): v} meaning c+_i c_j."""
    out = {}
    for p, v in op.items():
        if v == 0:
            continue
        need(len(p) == 2 and {x[1] for x in p} == {"c", "a"}, where, "has a term that is not one-body:", p)
        if p[0][1] == "c":
            k = p[0][0], p[1][0]
        else:
            need(p[0][0] != p[1][0], where, "has a constant")
            k, v = (p[1][0], p[0][0]), -v
        out[k] = out.get(k, 0) + v
    return out


def want(nBaths, n):
    """n.r/r between the second (to) and the first (from) shell; C_10 = z, C_1+-1 = -+(x +- iy)/sqrt 2."""
    l1, l2 = nBaths
    ix = refham.pos(nBaths)
    coef = {0: n[2], 1: (-n[0] + 1j * n[1]) / sqrt(2), -1: (n[0] + 1j * n[1]) / sqrt(2)}
    out = {}
    for s in range(2):
        for m in range(-l2, l2 + 1):
            for mp in range(-l1, l1 + 1):
                q = m - mp
                if abs(q) <= 1:
                    out[ix[l2, s, m], ix[l1, s, mp]] = coef[q] * wigner.ckq(l2, m, 1, q, l1, mp)
    return out


def same(got, exp, where, res):
    got = normal(got, where)
    for k in set(got) | set(exp):
        need(abs(got.get(k, 0) - exp.get(k, 0)) < 1e-12, where, "element", k, "is", got.get(k, 0), "expected", exp.get(k, 0))
    res.transitions += len(exp)
    res.traces += 1


def conj(exp):
    return {(j, i): np.conj(v) for (i, j), v in exp.items()}


def run(case):
    from impurityModel.ed import spectra as S

    res = Result()
    if case[0] == "vec":
        nB = dict(ARR[case[1]])
        for c in COMP:
            n = [COMP[case[2]], COMP[case[3]], c]
            arg = [n, tuple(n), np.array(n)][(case[2] + case[3]) % 3]
            exp = want(nB, n)
            same(S.getDipoleOperator(nB, arg), exp, f"dipole {nB} n={n}", res)
            d = S.getDaggeredDipoleOperators(nB, [arg])
            need(len(d) == 1, "number of operators")
            same(d[0], conj(exp), f"daggered dipole {nB} n={n}", res)
            need(list(arg) == n, "polarisation modified")
            res.states += 1
    elif case[0] == "tiny":
        nB = dict(ARR[case[1]])
        for n in itertools.product((0, 1, 1e-6, -2e-7j), repeat=3):
            exp = want(nB, n)
            same(S.getDipoleOperator(nB, n), exp, f"dipole {nB} n={n}", res)
            same(S.getDaggeredDipoleOperators(nB, [n])[0], conj(exp), f"daggered dipole {nB} n={n}", res)
            res.states += 1
    elif case[0] == "shells":
        a, b = case[1:]
        for na, nb in ((0, 0), (3, 0), (2, 5), (70, 40)):
            nB = {a: na, b: nb}
            for n in ([0, 0, 1], [1, 0, 0], [0, 1, 0], [0.5, -0.5j, 2], [-1, 1, -1]):
                same(S.getDipoleOperator(nB, n), want(nB, n), f"dipole {nB} n={n}", res)
                same(S.getDaggeredDipoleOperators(nB, [n])[0], conj(want(nB, n)), f"daggered dipole {nB} n={n}", res)
                res.states += 1
    elif case[0] == "lists":
        nB = dict(ARR[case[1]])
        vs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0.5, 0.5, 0.7], [1j, 0, 1], [0, 0, 0], [0.6, -0.8j, 0]]
        ws = [want(nB, v) for v in vs]
        for k in range(3):
            for rest in itertools.product(range(8), repeat=k):
                sel = (case[2],) + rest
                for f, g in ((S.getDipoleOperators, lambda x: x), (S.getDaggeredDipoleOperators, conj)):
                    ops = f(nB, [vs[i] for i in sel])
                    need(len(ops) == len(sel), "number of operators", len(ops), "for", sel)
                    for o, i in zip(ops, sel):
                        same(o, g(ws[i]), f"{f.__name__} {nB} list {sel} vector {vs[i]}", res)
                res.states += 1
        for f, g in ((S.getDipoleOperators, lambda x: x), (S.getDaggeredDipoleOperators, conj)):
            sel = [(3 * k + case[2]) % 8 for k in range(14)]
            ops = f(nB, [vs[i] for i in sel])
            need(len(ops) == len(sel), "number of operators", len(ops), "for", sel)
            for o, i in zip(ops, sel):
                same(o, g(ws[i]), f"{f.__name__} {nB} list {sel} vector {vs[i]}", res)
        need(len(S.getDipoleOperators(nB, [])) == 0 and len(S.getDaggeredDipoleOperators(nB, [])) == 0, "operators for an empty list")
    else:
        l = case[1]
        for others in itertools.chain(*(itertools.permutations(range(4), k) for k in (1, 2, 3))):
            if l not in others:
                continue
            for b in (0, 4, 50):
                nB = {x: b * (i + 1) for i, x in enumerate(others)}
                ix = refham.pos(nB)
                for f, a in ((S.getPhotoEmissionOperators, "a"), (S.getInversePhotoEmissionOperators, "c")):
                    for kw in ({"l": l}, {}) if l == 2 else ({"l": l},):
                        ops = f(nB, **kw)
                        exp = [{((ix[l, s, m], a),): 1} for s in range(2) for m in range(-l, l + 1)]
                        need([dict(o) for o in ops] == exp, f.__name__, nB, kw, "gives", ops)
                        res.transitions += len(exp)
                        res.traces += 1
                res.states += 1
    res.outcomes = {case[0]}
    return res
