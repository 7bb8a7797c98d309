"""C08: basis expansion is exact closure.

Explicit-state reachability: for every hopping graph on 4 spin-orbitals (all 64
sets of hopping pairs) and a family of interacting, number-changing, one-way and
cancelling operators, every start set of <= 2 product states (one-electron,
two-electron and mixed sectors), every restriction in a list, empty and partially
prefilled stores (every subset of the closure for selected operators), the basis
returned by the real expansion is compared with the reachable set of the model,
and the store with the exact restricted action. Both construction modes (one rank;
several ranks: C22).
"""

import itertools

from mc import ref
from mc.harness import Result, need

ID = "C08"
N = 4
MEANING = "states: product states of compared bases; transitions: stored results H|PS> compared with the model; traces: expansions of the real code replayed against the model"
RESTR = [None, {(0, 1): (0, 1)}, {(0,): (0, 0)}, {(2, 3): (1, 1)}, {(0, 1): (1, 2), (2, 3): (0, 1)}, {(0, 1, 2, 3): (1, 2)}, {(1, 2): (0, 0), (0, 3): (0, 2)}, {}]
PAIRS = list(itertools.combinations(range(N), 2))


def BOUNDS(tier):
    return dict(n=N, hopping_graphs=64, other_operators=list(OTHER), restrictions=len(RESTR), start_sets=len(starts()), prefill="every subset of the closure (up to 64) for selected operators", wide="chains of up to 129 spin-orbitals, interacting rings of 12 to 64 with bases of up to 2000 product states, 1 to 5 restrictions and up to 63 start states")


def hop(edges):
    op = {}
    for k, (i, j) in enumerate(PAIRS):
        if edges >> k & 1:
            v = 1.0 + 0.5j * k
            op[((i, "c"), (j, "a"))] = v
            op[((j, "c"), (i, "a"))] = v.conjugate()
    op[((0, "c"), (0, "a"))] = 1.0
    return op


OTHER = {
    "pair": {((0, "c"), (1, "c"), (2, "a"), (3, "a")): 1.0, ((3, "c"), (2, "c"), (1, "a"), (0, "a")): 1.0, ((0, "c"), (3, "a")): 0.5, ((3, "c"), (0, "a")): 0.5},
    "oneway": {((1, "c"), (0, "a")): 1.0, ((2, "c"), (1, "a")): 1.0, ((3, "c"), (2, "a")): 1.0},
    "create": {((0, "c"),): 1.0, ((0, "a"),): 1.0, ((2, "c"), (1, "a")): 1j, ((1, "c"), (2, "a")): -1j},
    # cancels exactly when spin-orbital 2 is occupied
    "cancel": {((0, "c"), (1, "a")): 1.0, ((1, "c"), (0, "a")): 1.0, ((0, "c"), (1, "a"), (2, "c"), (2, "a")): -1.0, ((2, "c"), (2, "a"), (1, "c"), (0, "a")): -1.0,
               ((2, "c"), (3, "a")): 0.5, ((3, "c"), (2, "a")): 0.5},
    "zero": {},
    "tiny": {((0, "c"), (1, "a")): 1e-9, ((1, "c"), (2, "a")): 1e-4, ((2, "c"), (1, "a")): 1e-4, ((1, "c"), (0, "a")): 1e-9},
    "diag": {((0, "c"), (0, "a")): 1.0, (): 2.0},
}


def starts():
    out = []
    for e in (1, 2, 3):
        f = ref.fock(N, e)
        out += [[m] for m in f] + [list(p) for p in itertools.combinations(f, 2)]
    out += [[0b0001, 0b0011], [0b0111, 0b0001], [0b0000, 0b1111], [0b1000, 0b0110, 0b0111], []]
    out += [p[::-1] for p in out[4:10]]
    return out


def opname(x):
    return hop(x) if isinstance(x, int) else OTHER[x]


def cases(tier):
    ops = list(range(64)) + list(OTHER)
    ops.sort(key=lambda x: (bin(x).count("1"), x) if isinstance(x, int) else (3, 0))
    out = [["graph", o, r] for o in ops for r in range(len(RESTR))]
    pre = [0b000001, 0b001001, 0b100001, 0b101101, 0b111111, "pair", "create", "cancel", "oneway"] if tier == "quick" else ops
    out += [["prefill", o, r] for o in pre for r in (range(len(RESTR)) if tier == "thorough" else (0, 1, 4))]
    for n in (7, 8, 9, 15, 16, 17, 24, 33, 65, 129):
        out.append(["chain", n])
    for n in (12, 33, 64) + ((20, 130) if tier == "thorough" else ()):
        for r in range(4):
            out.append(["lattice", n, r])
    return out


def expand(n, op, start, restr, prefilled, res, mode):
    from impurityModel.ed.finite import expand_basis

    r = None if restr is None else {frozenset(k): v for k, v in restr.items()}
    store = {ref.enc(m, n): {ref.enc(k, n): v for k, v in ref.apply(op, {m: 1}, restr).items() if abs(v) ** 2 > 1e-12} for m in prefilled}
    before = {k: dict(v) for k, v in store.items()}
    o, b0 = dict(op), tuple(ref.enc(m, n) for m in start)
    arg = {"t": b0, "l": list(b0), "k": dict.fromkeys(b0).keys()}
    want = ref.closure(op, start, restr)
    where = f"expand_basis(op={op}, start={[ref.occ(m) for m in start]}, restrictions={restr}, stored={[ref.occ(m) for m in prefilled]}, {mode})"
    kind = "tlk"[len(start) % 3]
    got = expand_basis(n, store, o, arg[kind], r, mode)
    need(o == op and tuple(arg[kind]) == b0, where, "modified its arguments")
    ms = [ref.dec(b, n) for b in got]
    need(all(isinstance(b, bytes) and ref.enc(m, n) == b for m, b in zip(ms, got)), where, "malformed", got)
    need(len(set(ms)) == len(ms), where, "has duplicates", [ref.occ(m) for m in ms])
    need(set(ms) == want, where, "gives", [ref.occ(m) for m in sorted(ms)], "expected", [ref.occ(m) for m in sorted(want)])
    for m in want:
        need(ref.enc(m, n) in store, where, "store lacks", ref.occ(m))
    for k, v in store.items():
        need(ref.dec(k, n) in want or k in before, where, "store has a state outside the basis", k)
        col = {q: a for q, a in ref.apply(op, {ref.dec(k, n): 1}, restr).items() if abs(a) ** 2 >= 1e-12}
        need(ref.close(ref.from_code(v, n), col), where, "store for", ref.occ(ref.dec(k, n)), "is", v)
        res.transitions += 1
    for k, v in before.items():
        need(store.get(k) == v, where, "changed a stored result")
    res.states += len(ms)
    res.traces += 1
    res.outcomes.add(len(ms))
    return len(ms)


def run(case):
    res = Result()
    if case[0] == "graph":
        op, restr = opname(case[1]), RESTR[case[2]]
        for start in starts():
            for mode in ("serial", "H_build"):
                expand(N, op, start, restr, [], res, mode)
    elif case[0] == "prefill":
        op, restr = opname(case[1]), RESTR[case[2]]
        for start in starts()[:9] + [[0b0011, 0b1100], [0b0001, 0b0011], [0b1010, 0b0101]]:
            clo = sorted(ref.closure(op, start, restr))
            if len(clo) > 8:
                clo = clo[:8]
            for k in range(1 << len(clo)):
                pre = [m for i, m in enumerate(clo) if k >> i & 1]
                for mode in ("serial", "H_build"):
                    expand(N, op, start, restr, pre, res, mode)
            # results stored earlier for states that are not reached now
            for extra in ([0b1111], [0b0000, 0b0111], list(range(16))):
                expand(N, op, start, restr, extra, res, "serial")
                expand(N, op, start, restr, extra, res, "H_build")
    elif case[0] == "lattice":
        n = case[1]
        op = {}
        for i in range(n):
            j, k = (i + 1) % n, (i + 2) % n
            op[(i, "c"), (j, "a")] = op[(j, "c"), (i, "a")] = 1.0 + i
            op[(i, "c"), (k, "c"), (k, "a"), (i, "a")] = 0.5
            op[(i, "c"), (i, "a")] = -1.0
        ev, half = tuple(range(0, n, 2)), tuple(range(n // 2))
        restr = [None, {ev: (1, 1)}, {ev: (0, 1), half: (1, 2), tuple(range(n)): (1, 3)}, {ev: (0, 2), half: (0, 1), (0, 1): (0, 1), (n - 1,): (0, 0), tuple(range(n)): (1, 3)}][case[2]]
        begin = [[1 << 1 | 1 << n // 2], [1 << i for i in range(1, n, 2)], [1 << i | 1 << (i + 1) % n for i in range(n - 1)]]
        if n < 20:
            begin += [[0b101010101010 & (1 << n) - 1], [0b111, 0b1110, 0b1]]
        if n == 33:
            begin = begin[:2]
        if n > 40:
            begin = begin[1:2] if case[2] == 0 else begin[1:]
        for start in begin:
            clo = sorted(ref.closure(op, start, restr))
            for pre in ([], clo[::3], clo[:400]):
                for mode in ("serial", "H_build"):
                    expand(n, op, start, restr, pre, res, mode)
    else:
        n = case[1]
        op = {}
        for i in range(n - 1):
            op[((i, "c"), (i + 1, "a"))] = op[((i + 1, "c"), (i, "a"))] = 1.0
        for restr in (None, {tuple(range(n // 2)): (0, 1)}, {(n // 2,): (0, 0)}):
            for start in ([1], [1 << n // 2, 1 << n - 1]) if n > 30 else ([1], [1 << n - 1], [1 | 1 << n - 1], [0b11], [0b11, 1 << n - 1]):
                for mode in ("serial", "H_build"):
                    expand(n, op, start, restr, [], res, mode)
    return res
