"""C07: ground-state basis.

Every request within the bounds (bath states, valence bath states, limits,
tolerance, nominal occupation) for single shells and pairs of shells in both
orders, compared as a set with a filter over the whole Fock space written from the
definition; each product state must appear exactly once. An exception is accepted
only if some requested partition can not be realised.
"""

import itertools

from mc import ref
from mc.harness import Result, need

ID = "C07"
MEANING = "states: requests; transitions: product states of the Fock space classified; traces: bases compared completely"


def BOUNDS(tier):
    return dict(single="l=0: <=4 bath states, l=1: <=3 (4), l=2: <=1 (2); all other arguments exhaustively, also valence states and electrons beyond what exists", pairs="two shells (0,1),(1,0),(0,2),(2,0) and (1,2) with restricted arguments", more="l = 3, three and four shells in every order, up to 260 bath states")


def cases(tier):
    out = []
    mx = {0: 4, 1: 3, 2: 1} if tier == "quick" else {0: 5, 1: 4, 2: 2}
    for l in (0, 1, 2):
        for nb in range(mx[l] + 1):
            for nv in range(nb + 3):
                for n0 in range(-1, 2 * (2 * l + 1) + 2):
                    out.append(["one", l, nb, nv, n0])
    for l1, l2, nbs in (((0), 1, (0, 1, 2)), (1, 0, (0, 1, 2)), (0, 2, (0, 1)), (2, 0, (0, 1)), (1, 2, (0,)), (2, 1, (0,))):
        for b1, b2 in itertools.product(nbs, repeat=2):
            for v1, v2 in itertools.product(range(b1 + 1), range(b2 + 1)):
                out.append(["two", l1, l2, b1, b2, v1, v2])
    # the arrangement of the examples: full 2p shell, 3d shell with valence bath
    for n0 in (7, 8, 9, 10) if tier == "quick" else range(0, 11):
        for nb, nv in ((10, 10), (11, 10)) if tier == "quick" else ((10, 10), (11, 10), (20, 10)):
            out.append(["pd", n0, nb, nv])
    # f shells, many bath states
    for l, nb, nv, n0, dv, dc in ((3, 0, 0, 1, 0, 0), (3, 0, 0, 2, 0, 0), (3, 0, 0, 13, 0, 0), (3, 0, 0, 14, 0, 0), (3, 0, 0, 7, 0, 0), (3, 2, 1, 1, 1, 1), (3, 1, 1, 12, 1, 0), (3, 3, 2, 13, 1, 1),
                                  (0, 30, 15, 1, 1, 1), (0, 30, 30, 0, 2, 0), (0, 40, 0, 2, 0, 2), (1, 70, 69, 5, 1, 1), (0, 140, 100, 1, 1, 1), (0, 260, 258, 0, 1, 1), (2, 30, 30, 8, 1, 0)):
        out.append(["many", {str(l): nb}, nv, n0, dv, dc])
    for p in itertools.permutations(((3, 1, 1), (1, 12, 2))):
        out.append(["manytwo", [list(x) for x in p]])
    for p in itertools.permutations(((2, 40, 1), (1, 30, 5))):
        out.append(["manytwo", [list(x) for x in p]])
    # every shell order with three and four shells, all partitions realisable
    for p in itertools.permutations((0, 1, 2)):
        out.append(["several", list(p)])
    for p in itertools.permutations((3, 0, 1)):
        out.append(["several", list(p)])
    out += [["several", [0, 1, 2, 3]], ["several", [3, 1, 0, 2]]]
    # every other shell order with three shells
    for p in itertools.permutations((0, 1, 2)):
        out.append(["three", list(p)])
    return out


def shells(nBaths):
    """Offsets of the impurity part and of the bath part of each shell."""
    imp, bath, i = {}, {}, 0
    for l in nBaths:
        imp[l] = i
        i += 2 * (2 * l + 1)
    for l, b in nBaths.items():
        bath[l] = i
        i += b
    return imp, bath, i


def parts_of(l, nb, nv, dv, dc, tol, n0):
    """(list of (nImp, nVal, nCon), all realisable?)"""
    out, ok = [], True
    for x in range(dv + 1):
        for y in range(dc + 1):
            if abs(x - y) <= tol:
                p = (n0 + x - y, nv - x, y)
                if 0 <= p[0] <= 2 * (2 * l + 1) and 0 <= p[1] and p[2] <= nb - nv:
                    out.append(p)
                else:
                    ok = False
    return out, ok


def expected(nBaths, val, dv, dc, tol, n0, brute):
    imp, bath, n = shells(nBaths)
    ok = True
    allowed = {}
    for l in nBaths:
        allowed[l], o = parts_of(l, nBaths[l], val[l], dv[l], dc[l], tol[l], n0[l])
        ok &= o
    if brute:
        masks = {}
        for l in nBaths:
            iv = ((1 << 2 * (2 * l + 1)) - 1) << imp[l]
            vv = ((1 << val[l]) - 1) << bath[l]
            cv = ((1 << (nBaths[l] - val[l])) - 1) << (bath[l] + val[l])
            masks[l] = (iv, vv, cv)
        want = {m for m in range(1 << n) if all(tuple(bin(m & x).count("1") for x in masks[l]) in allowed[l] for l in nBaths)}
    else:
        want = {0}
        for l in nBaths:
            new = set()
            for a, b, c in allowed[l]:
                for x in itertools.combinations(range(imp[l], imp[l] + 2 * (2 * l + 1)), a):
                    for y in itertools.combinations(range(bath[l], bath[l] + val[l]), b):
                        for z in itertools.combinations(range(bath[l] + val[l], bath[l] + nBaths[l]), c):
                            new.add(ref.mask_of(x + y + z))
            want = {m | k for m in want for k in new}
    return want, ok, n


def one(res, nBaths, val, dv, dc, tol, n0, brute=True):
    from impurityModel.ed.finite import get_basis

    args = [dict(x) for x in (nBaths, val, dv, dc, tol, n0)]
    want, ok, n = expected(nBaths, val, dv, dc, tol, n0, brute)
    res.states += 1
    res.transitions += 1 << n if brute else len(want)
    where = f"get_basis{tuple(args)}"
    try:
        got = get_basis(*[dict(x) for x in args])
    except Exception as e:
        need(not ok, where, "refused although every partition exists:", type(e).__name__, e)
        res.outcomes.add("refused")
        return
    res.traces += 1
    need(isinstance(got, (tuple, list)), where, "returned", type(got))
    need(all(isinstance(b, bytes) and len(b) == (n + 7) // 8 for b in got), where, "malformed product state")
    ms = [ref.dec(b, n) for b in got]
    need(all(ref.enc(m, n) == b for m, b in zip(ms, got)), where, "malformed product state")
    need(len(set(ms)) == len(ms), where, "has duplicates")
    need(set(ms) == want, where, "lacks", [ref.occ(m) for m in sorted(want - set(ms))[:5]], "has wrongly", [ref.occ(m) for m in sorted(set(ms) - want)[:5]])
    res.outcomes.add("%d" % len(ms))


def run(case):
    res = Result()
    if case[0] == "one":
        _, l, nb, nv, n0 = case
        for dv, dc, tol in itertools.product(range(nv + 2), range(max(nb - nv, 0) + 2), range(0, 4)):
            one(res, {l: nb}, {l: nv}, {l: dv}, {l: dc}, {l: tol}, {l: n0}, brute=(l < 2 or nb + nv < 2) and nv <= nb)
    elif case[0] == "two":
        _, l1, l2, b1, b2, v1, v2 = case
        for (dv1, dv2), (dc1, dc2), t1, t2, n1, n2 in itertools.product([(0, 0), (1, 0), (0, 1), (1, 2)], [(0, 0), (1, 0), (0, 1)], (0, 1), (1, 2),
                                                                       (0, 1, 2 * (2 * l1 + 1)), (1, 2 * (2 * l2 + 1) - 1)):
            one(res, {l1: b1, l2: b2}, {l1: v1, l2: v2}, {l1: dv1, l2: dv2}, {l1: dc1, l2: dc2}, {l1: t1, l2: t2}, {l1: n1, l2: n2}, brute=False)
    elif case[0] == "pd":
        _, n0, nb, nv = case
        for dv, dc, tol in ((0, 0, 0), (1, 0, 1), (2, 0, 1), (2, 0, 2), (1, 1, 1), (1, 1, 0), (11, 0, 1)):
            one(res, {1: 0, 2: nb}, {1: 0, 2: nv}, {1: 0, 2: dv}, {1: 0, 2: dc}, {1: 0, 2: tol}, {1: 6, 2: n0}, brute=False)
    elif case[0] == "many":
        (l, nb), = case[1].items()
        _, _, nv, n0, dv, dc = case
        for tol in (0, 1, 2):
            one(res, {int(l): nb}, {int(l): nv}, {int(l): dv}, {int(l): dc}, {int(l): tol}, {int(l): n0}, brute=False)
    elif case[0] == "manytwo":
        for dv, dc, tol in ((1, 0, 1), (1, 1, 0)):
            nb = {l: b for l, b, _ in case[1]}
            one(res, nb, {l: b - 1 for l, b in nb.items()}, {l: dv if l == 1 else 0 for l in nb}, {l: dc if l == 1 else 0 for l in nb}, {l: tol for l in nb}, {l: o for l, _, o in case[1]}, brute=False)
    elif case[0] == "several":
        ls = case[1]
        zero = {l: 0 for l in ls}
        for occ in ({l: 1 if l < 2 else 2 * (2 * l + 1) - 1 for l in ls}, {l: 2 * (2 * l + 1) if l == ls[0] else 1 for l in ls}):
            one(res, zero, zero, zero, zero, {l: 1 for l in ls}, occ, brute=False)
            for k in ls:
                if occ[k] + 1 <= 2 * (2 * k + 1):
                    for dv, dc in ((1, 0), (1, 1)) if occ[k] else ((1, 0),):
                        one(res, {l: 3 if l == k else 0 for l in ls}, {l: 2 if l == k else 0 for l in ls}, {l: dv if l == k else 0 for l in ls}, {l: dc if l == k else 0 for l in ls},
                            {l: 1 for l in ls}, occ, brute=False)
        need("refused" not in res.outcomes, "harness: a request of this family can not be realised")
    else:
        ls = case[1]
        for k in range(3):
            nb = {l: (1 if i == k else 0) for i, l in enumerate(ls)}
            for nv in (0, 1):
                one(res, nb, {l: (nv if nb[l] else 0) for l in ls}, {l: 1 for l in ls}, {l: (1 - nv if nb[l] else 0) for l in ls}, {l: 1 for l in ls},
                    {l: (1 if l < 2 else 2) for l in ls}, brute=False)
    return res
