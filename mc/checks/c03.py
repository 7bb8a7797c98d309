"""C03: applyOp equals the exact operator.

Space: on n = 4 spin-orbitals every operator string of length <= 4 (every order
and repetition of creations and removals) on every product state; every pair of
strings of length <= 2 as a two-process operator (coinciding, interfering and
cancelling processes) on superpositions; every single restriction
(subset, lo, hi) and pairs of them; amplitudes at, above and below the cut-off.
Each through all four code paths. Byte boundaries through n = 8, 9, 16, 17; systems
of up to 200 spin-orbitals, strings of 5 to 8 letters, three to six restrictions,
states and operators with hundreds of terms.
"""

import itertools

from mc import ref
from mc.harness import Result, need

ID = "C03"
N = 4
MEANING = "states: (operator, restrictions, input state) combinations; transitions: real applyOp calls compared with the model (4 code paths); traces: same calls whose stored results were also compared"


def BOUNDS(tier):
    return dict(strings="all strings of length <= %d on 4 spin-orbitals, all 16 states" % (4 if tier == "quick" else 5),
                two_process="all pairs of strings of length <= 2, 2 superpositions", restrictions="all (subset, lo, hi) and all pairs of subsets; ordered triples of 6 subsets, four to six at once",
                long="all strings of length 5 and 6 on 3 spin-orbitals, products of 3 and 4 one-body processes", wide="up to 200 spin-orbitals; lattices of 10 to 130 spin-orbitals with several hundred processes and states",
                cutoff="weights exactly at, below and above the cut-off")


RSETS = [(0, 1), (2, 3), (0, 2), (1,), (0, 1, 2, 3), (1, 2, 3)]


def lattice(n):
    """Ring with hopping, double hopping, density-density terms and triple processes: several hundred processes for a large n."""
    op = {}
    for i in range(n):
        j, k = (i + 1) % n, (i + 3) % n
        op[(i, "c"), (j, "a")] = 1.0 + 0.01j * i
        op[(j, "c"), (i, "a")] = 1.0 - 0.01j * i
        op[(i, "c"), (k, "c"), (k, "a"), (i, "a")] = 0.5 + 0.01 * i
        op[(i, "c"), (k, "c"), (j, "a"), ((i + 5) % n, "a")] = 0.25j
        if i % 3 == 0:
            op[(i, "c"), (j, "c"), (k, "c"), ((i + 4) % n, "a"), ((i + 6) % n, "a"), ((i + 7) % n, "a")] = -0.75
    return op


def patterns(n):
    """Deterministic superposition of several hundred product states."""
    ms = []
    full = (1 << n) - 1
    for k in range(40):
        m = sum(1 << i for i in range(n) if (i * (k + 3) + k) % 7 < 3)
        ms += [m, full ^ m, m ^ 1 << (k % n), (1 << (k % n)) | 1 << ((7 * k + 2) % n), full ^ 1 << (k % n)]
    return {m: 1 + 0.01j * i for i, m in enumerate(dict.fromkeys(ms))}


def cases(tier):
    out = []
    for length in range(0, 4):
        out.append(["word", length, None])
    letters = [(i, a) for i in range(N) for a in "ca"]
    for x in range(len(letters)):
        out.append(["word", 4, [x]])
    if tier == "thorough":
        for x, y in itertools.product(range(len(letters)), repeat=2):
            out.append(["word", 5, [x, y]])
    nw = 1 + 8 + 64
    for i in range(nw):
        out.append(["pair", i])
    for r in range(16):
        out.append(["restrict1", r])
    for r in range(16):
        out.append(["restrict2", r])
    out.append(["cutoff"])
    for n in (7, 8, 9, 15, 16, 17, 26, 33, 40, 64, 65, 128, 129, 200):
        out.append(["wide", n])
    for x in range(6):
        out.append(["long", 5, x])
    for x, y in itertools.product(range(6), repeat=2):
        out.append(["long", 6, x, y])
    for x in range(16):
        out.append(["longpairs", x])
    for x in range(len(RSETS)):
        out.append(["restrict3", x])
    for n in (10, 24, 40, 70, 130):
        for r in range(4):
            out.append(["lattice", n, r])
    return out


def variants(n, op, psi, cut, restr, exact_cut=True):
    """Run the code path(s) for this restriction setting; compare with the model."""
    from impurityModel.ed.finite import applyOp

    kw = {} if cut is None else {"slaterWeightMin": cut}
    c = 1e-12 if cut is None else cut
    full = ref.apply(op, psi, restr)
    want = {m: a for m, a in full.items() if not abs(a) ** 2 < c}
    runs = 0
    for store in (False, True):
        for rr in ([None, {}] if restr is None else [restr]):
            o, p = dict(op), ref.to_code(psi, n)
            o0, p0 = dict(o), dict(p)
            r = None if rr is None else {frozenset(k): v for k, v in rr.items()}
            r0 = None if r is None else dict(r)
            cache = {} if store else None
            got_c = applyOp(n, o, p, restrictions=r, opResult=cache, **kw)
            runs += 1
            need(o == o0 and p == p0 and r == r0, "arguments were modified", op, psi)
            need(all(isinstance(k, bytes) and len(k) == (n + 7) // 8 for k in got_c), "malformed product state", got_c)
            got = ref.from_code(got_c, n)
            need(ref.to_code(got, n) == got_c, "malformed product state", got_c)
            where = f"applyOp n={n} op={op} psi={psi} restrictions={restr} cut={c} store={store}"
            for m in set(got) | set(want):
                if m in want and m in got:
                    need(abs(got[m] - want[m]) <= 1e-9 * max(1, abs(want[m])), where, "state", ref.occ(m), "amplitude", got[m], "expected", want[m])
                elif m in want:
                    # only rounding at the very cut-off may excuse a missing state
                    need(False, where, "lacks", ref.occ(m), "amplitude", want[m])
                else:
                    a = full.get(m, 0)
                    need(False, where, "has", ref.occ(m), "amplitude", got[m], "expected", a)
            if store:
                need(set(cache) == set(p), where, "store has keys", sorted(cache), "expected", sorted(p))
                for m in psi:
                    col = ref.apply(op, {m: 1}, restr)
                    col = {k: v for k, v in col.items() if not abs(v) ** 2 < c}
                    gc = ref.from_code(cache[ref.enc(m, n)], n)
                    need(ref.close(gc, col), where, "store for", ref.occ(m), "holds", gc, "expected", col)
    return runs


def run(case):
    res = Result()
    kind = case[0]
    letters = [(i, a) for i in range(N) for a in "ca"]
    if kind == "word":
        _, length, first = case
        for tail in itertools.product(letters, repeat=length - len(first or [])):
            w = tuple(letters[x] for x in (first or [])) + tail
            op = {w: 0.5 - 1.5j}
            for m in range(1 << N):
                k = variants(N, op, {m: 1}, None, None) if length < 4 else fast(N, op, m)
                res.states += 1
                res.transitions += k
                res.traces += k
        res.outcomes = {"strings of length %d" % length}
    elif kind == "pair":
        ws = [w for length in range(3) for w in ref.words(N, length)]
        a = ws[case[1]]
        s1 = {m: 1 + 0.25 * m - 0.5j * (m % 3) for m in range(1 << N)}
        s2 = {m: (-1) ** m for m in range(0, 1 << N)}
        for b in ws:
            op = {a: 1.0, b: -1.0} if a != b else {a: 2}
            for psi in (s2, s1) if a != b else (s1,):
                k = variants(N, op, psi, None, None)
                res.states += 1
                res.transitions += k
                res.traces += k
        res.outcomes = {"pairs"}
    elif kind in ("restrict1", "restrict2"):
        subset = [i for i in range(N) if case[1] >> i & 1]
        psi = {m: 1 + 0.5j * m for m in range(1 << N)}
        op = {((0, "c"), (1, "a")): 1.0, ((2, "c"), (0, "a")): 0.5j, ((3, "c"),): 2, ((1, "a"),): -1.0, ((2, "c"), (2, "a")): 3.0, (): 0.25,
              ((3, "c"), (2, "c"), (1, "a"), (0, "a")): 0.75}
        single = {((1, "c"), (3, "a")): 1.0}
        if kind == "restrict1":
            for lo in range(0, N + 2):
                for hi in range(-1, N + 1):
                    for o in (op, single):
                        k = variants(N, o, psi, None, {frozenset(subset): (lo, hi)})
                        res.states += 1
                        res.transitions += k
                        res.traces += k
        else:
            for other in range(case[1] + 1, 16):
                sub2 = [i for i in range(N) if other >> i & 1]
                for lim in itertools.product([(0, 1), (1, 1), (1, 2), (0, 0), (2, 9)], repeat=2):
                    r = {frozenset(subset): lim[0], frozenset(sub2): lim[1]}
                    k = variants(N, op, psi, None, r)
                    res.states += 1
                    res.transitions += k
                    res.traces += k
        res.outcomes = {kind}
    elif kind == "cutoff":
        # |amplitude|^2 relative to the cut-off; values exact in binary
        cut = 0.25
        for a, b in itertools.product([0.5, 0.4375, 0.5625, -0.5, 0.5j, 0.25, -0.25, 0.75, -0.75, 0.0625], repeat=2):
            for restr in (None, {frozenset([0, 1]): (0, 2)}, {frozenset([2, 3]): (0, 1)}):
                # two processes reaching the same state: only the sum counts
                op = {((0, "c"), (1, "a")): a, ((0, "c"), (1, "a"), (2, "c"), (2, "a")): b, ((3, "c"), (1, "a")): b}
                for psi in ({0b0110: 1}, {0b0010: 1}, {0b0110: 1, 0b0010: 1}):
                    k = variants(N, op, psi, cut, restr)
                    res.states += 1
                    res.transitions += k
                    res.traces += k
        for c in (None, 1e-7, 1e-12, 0.0, 1e-20):
            for h in (1.0, 1e-3, 1e-5, 1e-7, 1e-9):
                op = {((0, "c"), (1, "a")): h, ((3, "c"), (1, "a")): 1.0}
                for restr in (None, {frozenset([0, 1]): (0, 2)}):
                    for psi in ({0b0110: 1}, {0b0110: 0.6, 0b0010: 0.8j}):
                        cc = 1e-12 if c is None else c
                        if any(abs(abs(h * x) ** 2 - cc) < 0.3 * cc for x in list(psi.values()) + [1]) or (h < 1 and abs(h) ** 2 < cc):
                            pass
                        k = variants(N, op, psi, c, restr)
                        res.states += 1
                        res.transitions += k
                        res.traces += k
        res.outcomes = {"cutoff"}
    elif kind == "wide":
        n = case[1]
        e = sorted({0, 1, 6, 7, 8, 9, 14, 15, 16, 17, n - 2, n - 1} if n < 30 else {0, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, n - 2, n - 1})
        e = [i for i in e if 0 <= i < n]
        full = (1 << n) - 1
        ms = [0, full] + [1 << i for i in e] + [1 << i | 1 << j for i, j in itertools.combinations(e, 2)]
        ms = list(dict.fromkeys(ms + [full ^ m for m in ms]))
        ops = [{((i, "c"), (j, "a")): 1.5 - 1j} for i in e for j in e]
        ops += [{((i, "c"), (j, "c"), (k, "a"), (l, "a")): 1.0 for i, j in itertools.combinations(e[-4:], 2) for k, l in itertools.permutations(e[:4], 2)}]
        psi = {m: 1 + 0.5j * k for k, m in enumerate(ms)}
        for op in ops:
            for restr in (None, {frozenset(e[1:3]): (0, 1)}, {frozenset(range(n)): (1, n - 1), frozenset([e[-1]]): (0, 0)}):
                k = variants(n, op, psi, None, restr)
                res.states += len(psi)
                res.transitions += k * len(psi)
                res.traces += k
        res.outcomes = {"wide"}
    elif kind == "long":
        n = 3
        ll = [(i, a) for i in range(n) for a in "ca"]
        for tail in itertools.product(ll, repeat=case[1] - len(case[2:])):
            op = {tuple(ll[x] for x in case[2:]) + tail: 0.5 - 1.5j}
            for m in range(1 << n) if case[1] < 6 else (0b000, 0b101, 0b011, 0b111):
                k = fast(n, op, m)
                res.states += 1
                res.transitions += k
                res.traces += k
        res.outcomes = {"long"}
    elif kind == "longpairs":
        pairs = [((i, "c"), (j, "a")) for i in range(N) for j in range(N)]
        psi = {m: 1 + 0.5j * m for m in range(1 << N)}
        for x in pairs:
            for y in pairs:
                # three pairs, and the string of four pairs that ends with a repetition of the first
                op = {pairs[case[1]] + x + y: 1.5j, pairs[case[1]] + x + y + x: -0.5}
                k = variants(N, op, psi, None, None)
                res.states += 1
                res.transitions += k
                res.traces += k
        res.outcomes = {"long"}
    elif kind == "restrict3":
        psi = {m: 1 + 0.5j * m for m in range(1 << N)}
        op = {((0, "c"), (1, "a")): 1.0, ((2, "c"), (0, "a")): 0.5j, ((3, "c"),): 2, ((1, "a"),): -1.0, ((2, "c"), (2, "a")): 3.0, (): 0.25}
        lims = [(0, 1), (1, 1), (1, 2), (0, 4)]
        for other in itertools.permutations([i for i in range(len(RSETS)) if i != case[1]], 2):
            for lim in itertools.product(lims, repeat=3):
                r = {frozenset(RSETS[i]): x for i, x in zip((case[1],) + other, lim)}
                k = variants(N, op, psi, None, r)
                res.states += 1
                res.transitions += k
                res.traces += k
        # four to six at once; exactly one of them is the tight one
        order = list(range(case[1], len(RSETS))) + list(range(case[1]))
        for num in (4, 5, 6):
            for tight in range(num):
                for lim in lims:
                    r = {frozenset(RSETS[i]): (lim if k == tight else (0, 4)) for k, i in enumerate(order[:num])}
                    k = variants(N, op, psi, None, r)
                    res.states += 1
                    res.transitions += k
                    res.traces += k
        res.outcomes = {"restrict3"}
    elif kind == "lattice":
        n = case[1]
        ev = frozenset(range(0, n, 2))
        restr = [None, {ev: (1, max(2, n // 4))}, {ev: (0, n // 3), frozenset(range(n // 2)): (1, n // 2 - 1), frozenset(range(n)): (2, n - 1)},
                 {ev: (0, n // 3), frozenset(range(n // 2)): (1, n // 2), frozenset(range(n // 2, n)): (0, n // 3), frozenset([0, n - 1]): (0, 1), frozenset(range(n)): (2, n - 1)}][case[2]]
        op = lattice(n)
        psi = patterns(n)
        k = variants(n, op, psi, None, restr)
        few = dict(list(op.items())[::7])
        k += variants(n, few, psi, 0.01, restr)
        k += variants(n, op, dict(list(psi.items())[:7]), None, restr)
        res.states += len(psi)
        res.transitions += k * len(psi)
        res.traces += k
        res.outcomes = {"lattice"}
    return res


def fast(n, op, m):
    """Single string on a product state, through the four code paths."""
    from impurityModel.ed.finite import applyOp

    (w, h), = op.items()
    r = ref.word(w, m)
    want = {} if r is None else {ref.enc(r[0], n): r[1] * h}
    src = ref.enc(m, n)
    for restr in (None, {}):
        for store in (None, {}):
            got = applyOp(n, op, {src: 1}, restrictions=restr, opResult=store)
            need(got == want, "applyOp", op, "on", ref.occ(m), "gives", got, "expected", want)
            if store is not None:
                need(store == {src: want}, "applyOp", op, "on", ref.occ(m), "stores", store)
    return 4
