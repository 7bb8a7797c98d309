"""Vectorised reference matrices (same convention as mc.ref, validated against it in the selftest)."""

import numpy as np


def parity(x):
    x = x.copy()
    for s in (32, 16, 8, 4, 2, 1):
        x ^= x >> s
    return x & 1


def word(process, m):
    """(valid, new masks, signs) of an array of masks."""
    m = m.copy()
    ok = np.ones(len(m), dtype=bool)
    odd = np.zeros(len(m), dtype=np.int64)
    for i, action in reversed(process):
        bit = np.int64(1) << np.int64(i)
        has = (m & bit) != 0
        ok &= ~has if action == "c" else has
        odd ^= parity(m & (bit - 1))
        m ^= bit
    return ok, m, 1 - 2 * odd


def allowed(m, restrictions):
    ok = np.ones(len(m), dtype=bool)
    for orbs, (lo, hi) in (restrictions or {}).items():
        k = np.zeros(len(m), dtype=int)
        for i in orbs:
            k += (m >> i) & 1
        ok &= (k >= lo) & (k <= hi)
    return ok


def images(op, basis, restrictions=None):
    b = np.asarray(basis, dtype=np.int64)
    for p, v in op.items():
        ok, m, s = word(p, b)
        ok[ok] = allowed(m[ok], restrictions)
        if ok.any():
            yield np.nonzero(ok)[0], m[ok], s[ok] * v


def closure(op, start, restrictions=None):
    seen = np.unique(np.asarray(sorted(start), dtype=np.int64))
    new = seen
    while len(new):
        out = [m for _, m, _ in images(op, new, restrictions)]
        out = np.unique(np.concatenate(out)) if out else np.zeros(0, np.int64)
        new = np.setdiff1d(out, seen, assume_unique=True)
        seen = np.union1d(seen, new)
    return seen


def matrix(op, rows, cols, restrictions=None):
    """<rows| op |cols>; both sorted."""
    rows = np.asarray(rows, dtype=np.int64)
    h = np.zeros((len(rows), len(cols)), dtype=complex)
    for j, m, v in images(op, cols, restrictions):
        i = np.searchsorted(rows, m)
        i[i == len(rows)] = 0
        hit = rows[i] == m if len(rows) else np.zeros(len(m), dtype=bool)
        np.add.at(h, (i[hit], j[hit]), v[hit])
    return h
