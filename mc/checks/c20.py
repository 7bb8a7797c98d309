"""C20: NIXS operators.

Every momentum with components from a set of 5 (125 vectors: all axes, planes, octants
and q = 0), every pair of shells, every lower multipole limit, real and complex radial
functions on uniform and non-uniform meshes, all ordered lists of up to 3 of 8 momenta (several of equal length,
equal component, opposite or parallel direction).
Oracle: numerical plane-wave integral - each multipole i^k (2k+1) j_k(qr) P_k(cos) is
integrated over the sphere with an exact quadrature; spherical Bessel functions by their
integral representation. One common constant is fixed by one element of one momentum.
"""

import itertools

import numpy as np

from mc import refham
from mc.checks.c19 import normal
from mc.harness import Result, need

ID = "C20"
MEANING = "states: (momentum, shells, kmin, radial functions) inputs; transitions: matrix elements compared; traces: operators returned by the real code"
COMP = [0.0, 1.0, -1.0, 2.7, -0.4]
SHELLS = [(2, 2), (2, 1), (1, 2), (1, 1), (2, 0), (0, 2), (3, 2), (3, 1), (0, 0), (3, 3), (2, 3), (1, 3)]


def BOUNDS(tier):
    return dict(components=COMP, vectors=125, shells=SHELLS, kmin="default, 0..3", lists="all ordered pairs and triples of 8 momenta")


def cases(tier):
    out = [["q", i, j, s] for s in range(len(SHELLS)) for i in range(5) for j in range(5)]
    out += [["list", i, j] for i in range(8) for j in range(8)]
    out += [["fine", s] for s in range(len(SHELLS))]
    return out


def leg(k, x):
    p0, p1 = np.ones_like(x), x
    if k == 0:
        return p0
    for i in range(1, k):
        p0, p1 = p1, ((2 * i + 1) * x * p1 - i * p0) / (i + 1)
    return p1


XG, WG = np.polynomial.legendre.leggauss(64)


def bessel(k, x):
    return (0.5 * (-1j) ** k * (np.exp(1j * np.outer(x, XG)) * leg(k, XG) @ WG)).real


# quadrature on the sphere, exact to degree 15
_x, _w = np.polynomial.legendre.leggauss(10)
_p = np.arange(20) * 2 * np.pi / 20
CT, PH = np.repeat(_x, 20), np.tile(_p, 10)
WS = np.repeat(_w, 20) * 2 * np.pi / 20
ST = np.sqrt(1 - CT**2)
DIR = np.array([ST * np.cos(PH), ST * np.sin(PH), CT])


def ylm(l, m):
    """Condon-Shortley spherical harmonics on the quadrature points (Rodrigues' formula)."""
    c = np.polynomial.Polynomial([-1, 0, 1]) ** l
    from math import factorial as f

    a = abs(m)
    d = c.deriv(l + a) if l + a else c
    p = (-1) ** a * ST**a * d(CT) / (2**l * f(l))
    y = np.sqrt((2 * l + 1) / (4 * np.pi) * f(l - a) / f(l + a)) * p * np.exp(1j * a * PH)
    return y if m >= 0 else (-1) ** a * np.conj(y)


_Y = {(l, m): ylm(l, m) for l in range(4) for m in range(-l, l + 1)}


def angular(k, li, lj, qhat):
    """<li mi| P_k(qhat.r) |lj mj>"""
    p = leg(k, qhat @ DIR) * WS
    return np.array([[np.sum(np.conj(_Y[li, mi]) * p * _Y[lj, mj]) for mj in range(-lj, lj + 1)] for mi in range(-li, li + 1)])


def radial(kind, l):
    if kind == 0:
        r = np.linspace(0, 7, 500)
    elif kind == 1:
        r = 7 * np.linspace(0, 1, 1500) ** 2
    else:
        r = np.linspace(0, 7, 800)
    R = r**l * np.exp(-(1.0 + 0.2 * l) * r**2)
    R = R / np.sqrt(np.sum((R**2 * r**2)[1:] * np.diff(r)))
    if kind == 2:
        R = R * np.exp(0.8j * l + 0.3j * r)
    return r, R


def simpsonish(f, r):
    return np.sum((f[1:] + f[:-1]) * np.diff(r)) / 2


_memo = {}


def want(q, li, lj, Ri, Rj, r, kmin, memo=None):
    if memo is not None:
        key = (memo, tuple(q), kmin)
        if key not in _memo:
            _memo[key] = want(q, li, lj, Ri, Rj, r, kmin)
        return _memo[key]
    q = np.array(q, dtype=float)
    n = np.sqrt(q @ q)
    qhat = q / n if n else np.array([0.0, 0, 1])
    out = 0
    for k in range(kmin, li + lj + 1):
        if (li + lj + k) % 2 == 0:
            out = out + 1j**k * (2 * k + 1) * simpsonish(np.conj(Ri) * Rj * bessel(k, n * r) * r**2, r) * angular(k, li, lj, qhat)
    return np.zeros((2 * li + 1, 2 * lj + 1)) + out


_const = []


def constant():
    """The common constant, from <2 0|exp(iqz)|2 0> at q = (0, 0, 1)."""
    if not _const:
        from impurityModel.ed.spectra import getNIXSOperator

        r, R = radial(0, 2)
        nB = {1: 0, 2: 0}
        op = normal(getNIXSOperator(nB, [0, 0, 1.0], 2, 2, R, R, r))
        i = refham.pos(nB)[2, 0, 0]
        c = op[i, i] / want([0, 0, 1.0], 2, 2, R, R, r, 1)[2, 2]
        need(abs(c) > 1e-3 and abs(c.imag) < 1e-9, "the common constant is", c)
        _const.append(c)
    return _const[0]


def compare(op, nB, q, li, lj, Ri, Rj, r, kmin, where, res, tol=1e-7, memo=None):
    c = constant()
    ix = refham.pos(nB)
    exp = c * want(q, li, lj, Ri, Rj, r, kmin, memo)
    got = normal(op, where)
    for k, v in got.items():
        need(np.isfinite(v), where, "element", k, "is", v)
    keys = set()
    for s in range(2):
        for a, mi in enumerate(range(-li, li + 1)):
            for b, mj in enumerate(range(-lj, lj + 1)):
                k = ix[li, s, mi], ix[lj, s, mj]
                keys.add(k)
                need(abs(got.get(k, 0) - exp[a, b]) < tol, where, "element", (s, mi, mj), "is", got.get(k, 0), "expected", exp[a, b])
    for k in set(got) - keys:
        need(abs(got[k]) < tol, where, "has an element", k)
    res.transitions += len(keys)
    res.traces += 1


def run(case):
    from impurityModel.ed import spectra as S

    res = Result()
    if case[0] == "q":
        li, lj = SHELLS[case[3]]
        nB = {l: 2 + l for l in sorted({li, lj, 2})}
        for z in COMP:
            q = [COMP[case[1]], COMP[case[2]], z]
            for kind in (0, 2):
                r, Ri = radial(kind, li)
                Rj = radial(kind, lj)[1]
                for kmin in (None, 0, 1, 2, 3):
                    arg = [q, tuple(q), np.array(q)][(case[1] + case[2]) % 3]
                    kw = {} if kmin is None else {"kmin": kmin}
                    op = S.getNIXSOperator(nB, arg, li, lj, Ri, Rj, r, **kw)
                    need(list(arg) == q, "momentum modified")
                    compare(op, nB, q, li, lj, Ri, Rj, r, 1 if kmin is None else kmin, f"NIXS q={q} li={li} lj={lj} kmin={kmin} radial {kind}:", res)
            res.states += 1
    elif case[0] == "list":
        qs = [[0, 0, 0], [1.2, 0, 0.5], [0, 1.2, 0.5], [-1.2, 0, 0.5], [1.2, 0, -0.5], [0.5, 0, 1.2], [2.4, 0, 1.0], [0.0, -1.2, 0.5]]
        r, R = radial(0, 2)
        nB = {1: 0, 2: 10}
        for n in ((),) + tuple((i,) for i in range(8)):
            sel = (case[1], case[2]) + n
            for kmin in (None, 0):
                kw = {} if kmin is None else {"kmin": kmin}
                ops = S.getNIXSOperators(nB, [qs[i] for i in sel], 2, 2, R, R, r, **kw)
                need(len(ops) == len(sel), "number of operators", len(ops))
                for o, i in zip(ops, sel):
                    compare(o, nB, qs[i], 2, 2, R, R, r, 1 if kmin is None else 0, f"NIXS list {sel} q={qs[i]} kmin={kmin}", res, memo="list")
            res.states += 1
        sel = [(3 * k + case[1] + case[2]) % 8 for k in range(12)]
        ops = S.getNIXSOperators({1: 50, 2: 100}, [qs[i] for i in sel], 2, 2, R, R, r)
        need(len(ops) == len(sel), "number of operators", len(ops))
        for o, i in zip(ops, sel):
            compare(o, {1: 50, 2: 100}, qs[i], 2, 2, R, R, r, 1, f"NIXS list {sel} q={qs[i]}", res, memo="list")
        need(len(S.getNIXSOperators(nB, [], 2, 2, R, R, r)) == 0, "operators for an empty list")
    else:
        li, lj = SHELLS[case[1]]
        nB = {l: (0, 90)[case[1] % 2] for l in sorted({li, lj, 2})}
        r, Ri = radial(1, li)
        Rj = radial(1, lj)[1]
        for q in ([0, 0, 0], [0, 0, 1e-6], [1e-3, 0, 0], [4.0, 4, 4], [-1, 2, -3], [0, 5, 0], [0, 0, -5]):
            for kmin in (0, 1):
                compare(S.getNIXSOperator(nB, q, li, lj, Ri, Rj, r, kmin), nB, q, li, lj, Ri, Rj, r, kmin, f"NIXS q={q} li={li} lj={lj} kmin={kmin} non-uniform mesh", res, 1e-5)
        res.states += 1
    res.outcomes = {case[0]}
    return res
