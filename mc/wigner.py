"""Exact angular momentum algebra: Racah formula in rational arithmetic."""

from fractions import Fraction
from functools import lru_cache
from math import factorial as f
from math import sqrt


@lru_cache(None)
def w3j_sq(j1, j2, j3, m1, m2, m3):
    """(sign, square) of the 3j symbol, integer arguments."""
    if m1 + m2 + m3 or j3 < abs(j1 - j2) or j3 > j1 + j2 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0, Fraction(0)
    s = Fraction(0)
    for t in range(0, j1 + j2 + j3 + 1):
        d = [t, j3 - j2 + t + m1, j3 - j1 + t - m2, j1 + j2 - j3 - t, j1 - t - m1, j2 - t + m2]
        if min(d) >= 0:
            p = 1
            for x in d:
                p *= f(x)
            s += Fraction((-1) ** t, p)
    pre = Fraction(f(j1 + j2 - j3) * f(j1 - j2 + j3) * f(-j1 + j2 + j3), f(j1 + j2 + j3 + 1))
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        pre *= f(j + m) * f(j - m)
    sg = (1 if s > 0 else -1 if s < 0 else 0) * (-1) ** ((j1 - j2 - m3) % 2)
    return sg, pre * s * s


def w3j(*a):
    s, q = w3j_sq(*a)
    return s * sqrt(q)


@lru_cache(None)
def ckq(l, m, k, q, lp, mp):
    """<l m| C_kq |l' m'>, C_kq = sqrt(4 pi / (2k+1)) Y_kq."""
    s1, a = w3j_sq(l, k, lp, -m, q, mp)
    s2, b = w3j_sq(l, k, lp, 0, 0, 0)
    return (-1) ** (m % 2) * s1 * s2 * sqrt(a * b * (2 * l + 1) * (2 * lp + 1))


def coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R):
    """<1 2| sum_k R_k C_k(r1).C_k(r2) |4 3>: electron 1 goes 4 -> 1, electron 2 goes 3 -> 2."""
    q = m1 - m4
    if m2 - m3 != -q:
        return 0.0
    return sum(r * (-1) ** (q % 2) * ckq(l1, m1, k, q, l4, m4) * ckq(l2, m2, k, -q, l3, m3) for k, r in enumerate(R) if r)


def canonical(op):
    """c+c+cc operator with arbitrary labels as {((i, j), (k, l)): amplitude of c+_i c+_j c_k c_l}, i < j, k < l."""
    out = {}
    for ((i, a), (j, b), (k, c), (l, d)), v in op.items():
        assert (a, b, c, d) == ("c", "c", "a", "a")
        if i == j or k == l:
            continue
        s = 1
        if i > j:
            i, j, s = j, i, -s
        if k > l:
            k, l, s = l, k, -s
        key = (i, j), (k, l)
        out[key] = out.get(key, 0) + s * v
    return out


def uop(l1, l2, l3, l4, R):
    """1/2 sum c+_{1 s} c+_{2 s'} c_{3 s'} c_{4 s}."""
    out = {}
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                m4 = m1 + m2 - m3
                if abs(m4) > l4:
                    continue
                u = coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R)
                if u:
                    for s in range(2):
                        for t in range(2):
                            out[((l1, s, m1), "c"), ((l2, t, m2), "c"), ((l3, t, m3), "a"), ((l4, s, m4), "a")] = u / 2
    return out


def add(*ops):
    out = {}
    for o in ops:
        for k, v in o.items():
            out[k] = out.get(k, 0) + v
    return out


def u2p3d(Fdd, Fpp, Fpd, Gpd):
    return add(uop(2, 2, 2, 2, Fdd), uop(1, 1, 1, 1, Fpp), uop(1, 2, 2, 1, Fpd), uop(2, 1, 1, 2, Fpd), uop(1, 2, 1, 2, Gpd), uop(2, 1, 2, 1, Gpd))


def soc(xi, l):
    """xi L.S as {(lab c)(lab a): value}, s = 0 is spin down."""
    op = {}
    for m in range(-l, l + 1):
        for s in range(2):
            op[((l, s, m), "c"), ((l, s, m), "a")] = xi * m * (s - 0.5)
        if m < l:
            c = xi / 2 * sqrt(l * (l + 1) - m * (m + 1))
            op[((l, 0, m + 1), "c"), ((l, 1, m), "a")] = c  # L+ S-
            op[((l, 1, m), "c"), ((l, 0, m + 1), "a")] = c  # L- S+
    return op


def field(hx, hy, hz, l):
    """h.S"""
    op = {}
    for m in range(-l, l + 1):
        op[((l, 1, m), "c"), ((l, 1, m), "a")] = hz / 2
        op[((l, 0, m), "c"), ((l, 0, m), "a")] = -hz / 2
        op[((l, 1, m), "c"), ((l, 0, m), "a")] = (hx - 1j * hy) / 2
        op[((l, 0, m), "c"), ((l, 1, m), "a")] = (hx + 1j * hy) / 2
    return op
