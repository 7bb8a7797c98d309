"""C22: distributed basis expansion and Hamiltonian construction.

The real code runs on 1-4 virtual ranks (processes with different hash seeds) under a
controller that explores message schedules in two buffering modes (bounded number of
departures from the default). For every hopping graph on 4 spin-orbitals, several start
sets and restrictions, every assignment of the reachable states' stored results to
(at most one of) the ranks and sequences of constructions sharing the stores, the ranks'
bases, stores, local and full matrices are compared with the reference model.
"""

import itertools


from mc import mpicheck, ref
from mc.checks.c08 import OTHER, hop
from mc.harness import Result, need

ID = "C22"
MEANING = "states: scheduling points visited; transitions: communication calls and completions; traces: complete executions (schedules) of the real code on all ranks"
ASSUMPTIONS = ["a stored result is present on at most one rank (documented precondition)", "all ranks are called with the same start states in the same order", "MPI semantics of mc/mpicore.py"]
N = 4
TIMEOUT = 400
worker_exit = mpicheck.close
RESTR = [None, {(0, 1): (0, 1)}, {(2, 3): (1, 1)}, {(0, 1): (1, 2), (2, 3): (0, 1)}]
STARTS = [[0b0011], [0b0101, 0b1000], [0b1110], [0b0001, 0b0010], []]
MODES = ["dense_serial", "sparse_serial", "dense_MPI", "sparse_MPI", None]


def BOUNDS(tier):
    return dict(ranks="1..4 (5, 6, 8: default schedules)", large="12 to 70 spin-orbitals, up to 276 product states", graphs=64, deviations=1 if tier == "quick" else 2, stores="every assignment of <= 6 reachable states to ranks", modes=MODES, hash_seeds=2 if tier == "quick" else 4)


def cases(tier):
    deep = tier == "thorough"
    out = []
    ops = sorted(range(64), key=lambda x: (bin(x).count("1"), x)) + list(OTHER)
    for o in ops:
        for size in (2, 3) if not deep else (1, 2, 3, 4):
            out.append(["graph", o, size, 2 if deep and size < 4 else 1, 0])
    for o in (63, 45, "create", "pair"):
        for size in (1, 4):
            out.append(["graph", o, size, 1 if size == 1 else 0, 1])
    pre = [(1, [0b0001]), (0b101001, [0b0001]), (9, [0b0011]), ("create", [0b0000]), ("oneway", [0b0001]), ("cancel", [0b0001])]
    for o, start in pre:
        for size in (2, 3):
            out.append(["stores", o, size, start, 1 if deep else 0])
    for o in (63, 33, "cancel", "pair"):
        for size in (2, 3):
            for seed in range(4 if deep else 2):
                out.append(["sequence", o, size, seed, 1])
    for o in (0, 9, 63, 45, "cancel", "zero", "diag"):
        for size in (1, 2, 3, 4):
            out.append(["matrix", o, size, (2 if deep else 1) if size < 4 else 0])
    for n in (7, 9, 10):
        for size in (2, 4):
            out.append(["chain", n, size])
    for size in (5, 6, 8):
        out += [["graph", o, size, 0, 0] for o in (63, 9, "create")] + [["matrix", 45, size, 0]]
    out.append(["stores", 9, 5, [0b0011], 0])
    out += [["calls", o, size, (2 if deep else 1) if size < 4 else 0] for o in (45, "cancel") for size in (2, 3, 4)]
    out += [["lattice", n, size] for n in (12, 24, 70) for size in (2, 3, 5)]
    return out


def oper(x):
    return hop(x) if isinstance(x, int) else OTHER[x]


def col(op, m, restr, n):
    return {ref.enc(q, n): a for q, a in ref.apply(op, {m: 1}, restr).items() if abs(a) ** 2 >= 1e-12}


def judge_construction(n, op, starts, restr, stores, local):
    wants = [ref.closure(op, s, restr) for s in starts]
    need_all = set().union(*wants) if wants else set()

    def judge(results, w):
        size = len(results)
        for i, want in enumerate(wants):
            bases = []
            for r in range(size):
                h, ix = results[r][0][i]
                inv = sorted(ix, key=ix.get)
                need(sorted(ix.values()) == list(range(len(ix))), w, "index map", ix)
                need(h.shape == (len(ix),) * 2, w, "matrix shape", h.shape)
                bases.append(inv)
            need(all(b == bases[0] for b in bases), w, "bases of the ranks differ:", bases)
            ms = [ref.dec(b, n) for b in bases[0]]
            need(len(set(ms)) == len(ms) and set(ms) == want and all(ref.enc(m, n) == b for m, b in zip(ms, bases[0])), w,
                 "construction", i, "basis", [ref.occ(m) for m in ms], "expected", [ref.occ(m) for m in sorted(want)])
            H = ref.matrix(op, ms, restr)
            hs = [results[r][0][i][0] for r in range(size)]
            if local:
                total = sum(hs) if size else 0
                need(abs(total - H).max(initial=0) < 2e-9, w, "construction", i, "local matrices sum up to", total, "expected", H)
                for j in range(len(ms)):
                    need(sum(bool(abs(h[:, j]).max() > 0) for h in hs) <= 1, w, "column", j, "is on more than one rank")
            else:
                for r, h in enumerate(hs):
                    need(abs(h - H).max(initial=0) < 2e-9, w, "construction", i, "full matrix on rank", r, "is", h, "expected", H)
        have = {}
        for r in range(size):
            need(results[r][2] == op, w, "Hamiltonian modified on rank", r)
            for k, v in results[r][1].items():
                need(k not in have, w, "stored result of", k, "on ranks", have.get(k), "and", r)
                have[k] = r
                m = ref.dec(k, n)
                need(m in need_all or k in stores[r], w, "rank", r, "stores a state outside the basis", ref.occ(m))
                c = col(op, m, restr, n)
                need(all(abs(v.get(x, 0) - c.get(x, 0)) < 1e-9 for x in set(v) | set(c)), w, "rank", r, "stores a wrong result for", ref.occ(m))
            for k in stores[r]:
                need(k in results[r][1], w, "rank", r, "lost a stored result")
        for m in need_all:
            need(ref.enc(m, n) in have, w, "no rank stores the result of", ref.occ(m))

    return judge


def judge_matrix(op, H):
    def judge(results, w):
        for r, (h, oo) in enumerate(results):
            need(oo == op, w, "operator modified")
            need(h.shape == H.shape and abs(h - H).max() < 1e-9, w, "matrix on rank", r, "is", h, "expected", H)

    return judge


def construct(n, op, starts, restr, assign, size, bound, local, res, where, seed=0):
    """assign: {mask: rank}"""
    stores = [{ref.enc(m, n): col(op, m, restr, n) for m, r in assign.items() if r == q} for q in range(size)]
    args = [(n, op, [[ref.enc(m, n) for m in s] for s in starts], restr, stores[r], local) for r in range(size)]
    where = f"{where} starts {[[ref.occ(m) for m in s] for s in starts]} restrictions {restr} stores {assign} local {local}"
    mpicheck.every(size, "expand", args, bound, res, judge_construction(n, op, starts, restr, stores, local), where, seed)


def run(case):
    res = Result()
    if case[0] == "graph":
        _, o, size, bound, seed = case
        op = oper(o)
        for i, start in enumerate(STARTS):
            for j, restr in enumerate(RESTR):
                local = (i + j) % 2 == 1
                # full exploration for one combination per restriction, default schedules for the others
                construct(N, op, [start], restr, {}, size, bound if i == (o if isinstance(o, int) else 1) % 4 and j in (0, 1 + (size + i) % 3) else 0, local, res, str(case), seed)
        res.outcomes.add("%d ranks" % size)
    elif case[0] == "stores":
        _, o, size, start, bound = case
        op = oper(o)
        reach = sorted(ref.closure(op, start))
        reach = reach[:5 if size == 2 else 4 if size < 5 else 3]
        for where in itertools.product(range(-1, size), repeat=len(reach)):
            assign = {m: r for m, r in zip(reach, where) if r >= 0}
            if sum(where) % 3 == 0:
                assign.update({0b1111: size - 1, 0b0111: 0})
            construct(N, op, [start], None, assign, size, bound if sum(where) % 5 == 0 else 0, sum(where) % 2 == 0, res, str(case))
        res.outcomes.add("stores")
    elif case[0] == "sequence":
        _, o, size, seed, bound = case
        op = oper(o)
        singles = [[m] for m in ref.fock(N, 2)][::2] + [[0b0001], [0b0111]]
        for a, b in itertools.product(singles, repeat=2):
            construct(N, op, [a, b], None, {}, size, 0, (a[0] + b[0]) % 2 == 0, res, str(case), seed)
        construct(N, op, [[0b0011], [0b0001, 0b0110], [0b0011]], None, {}, size, bound, True, res, str(case), seed)
        construct(N, op, [[0b0011], [0b0001, 0b0110], [0b0011]], RESTR[1], {0b0001: 1}, size, 0, False, res, str(case), seed)
        res.outcomes.add("sequence")
    elif case[0] == "matrix":
        _, o, size, bound = case
        op = oper(o)
        for basis in (ref.fock(N, 2)[::-1], ref.fock(N), [0b0001, 0b1000, 0b0110], [0b0011]):
            H = ref.matrix(op, basis)
            for mode in MODES:
                judge = judge_matrix(op, H)
                args = [(N, op, [ref.enc(m, N) for m in basis], mode)] * size
                mpicheck.every(size, "hamiltonian", args, bound if len(basis) < 8 else 0, res, judge, f"{case} basis of {len(basis)} mode {mode}")
        res.outcomes.add("matrix")
    elif case[0] == "calls":  # calls following each other, any rank, sender or channel arbitrarily late
        _, o, size, bound = case
        op, opp = oper(o), {p: (-0.5 if len(p) < 4 else 2) * v for p, v in oper(9).items()}
        for first, second in itertools.product([m for m in MODES if m] + ["full", "local"], repeat=2):
            calls, judges = [], []
            for kind, h, basis in ((first, op, ref.fock(N, 2)), (second, opp, ref.fock(N, 1)[::-1] + [0b1110]), (first, opp, [0b0011, 0b1100])):
                if kind in MODES:
                    calls.append([("hamiltonian", (N, h, [ref.enc(m, N) for m in basis], kind))] * size)
                    judges.append(judge_matrix(h, ref.matrix(h, basis)))
                else:
                    calls.append([("expand", (N, h, [[ref.enc(m, N) for m in basis]], None, {}, kind == "local"))] * size)
                    judges.append(judge_construction(N, h, [basis], None, [{}] * size, kind == "local"))

            def judge(results, w):
                for i, j in enumerate(judges):
                    j([r[i] for r in results], w + f" call {i}")

            mpicheck.every(size, "several", [([c[r] for c in calls],) for r in range(size)], bound if first == second else 0, res, judge, f"{case} {first}, {second}", delays=True)
        res.outcomes.add("calls")
    elif case[0] == "lattice":  # hundreds of product states, wide systems, several restrictions
        _, n, size = case
        op = {}
        for i in range(n):
            j, k = (i + 1) % n, (i + 2) % n
            op[((i, "c"), (j, "a"))] = op[((j, "c"), (i, "a"))] = 1.0 + 0.1 * i
            op[((i, "c"), (k, "c"), (k, "a"), (i, "a"))] = 0.5
        ev, half = tuple(range(0, n, 2)), tuple(range(n // 2))
        for r, restr in enumerate([None, {ev: (1, 1), half: (0, 1)}, {ev: (0, 1), half: (1, 2), tuple(range(n)): (1, 3), (n - 1,): (0, 0)}]):
            starts = [[1 << 1 | 1 << n // 2], [1 << i for i in range(1, n, 2)]] if n < 30 else [[1 << i for i in range(1, n, 2)]]
            if n < 20:
                starts.append([0b111000])
            starts = [[m for m in s if ref.allowed(m, restr)] for s in starts]
            assign = {1 << i: i % size for i in range(0, n, 3)} if r == 0 else {}
            construct(n, op, starts, restr, assign, size, 0, (r + size) % 2 == 0, res, str(case))
        res.outcomes.add("lattice")
    else:
        _, n, size = case
        op = {}
        for i in range(n - 1):
            op[((i, "c"), (i + 1, "a"))] = op[((i + 1, "c"), (i, "a"))] = 1.0
        for start in ([1], [1 << n - 1, 0b11], [1 | 1 << n - 1]):
            for restr in (None, {tuple(range(n // 2)): (0, 1)}):
                for assign in ({}, {1 << i: i % size for i in range(0, n, 2)}):
                    construct(n, op, [start, [0b110]], restr, assign if restr is None else {}, size, 0, size == 2, res, str(case))
        res.outcomes.add("chain")
    return res
