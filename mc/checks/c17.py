"""C17: spectra of lists of eigenstates and transition operators.

For every hopping graph on 4 spin-orbitals (three interactions) every ordered list of
up to 3 (thorough 4) transition operators from an alphabet of 9 (removal, addition,
dipole-like, sums, complex strengths, number-changing, annihilating, number operator)
and ordered lists of 1-3 initial states, with restrictions, both broadenings' signs and
limited Krylov sizes, in both parallelisation modes. Every (state, operator) slot is
compared with the direct solution of the linear system (or with the continued fraction
of an independent Lanczos), so order, presence and store effects are all enumerated.
"""

import itertools

import numpy as np

from mc import ref
from mc.checks.c15 import chain, graph
from mc.checks.c16 import compare
from mc.harness import Result, need

ID = "C17"
MEANING = "states: (Hamiltonian, restriction, operator list, state list) inputs; transitions: spectra values compared; traces: calls of the real code"
W = np.array([-2.5, -0.6, 0.3, 1.4])
RESTR = [None, {(0, 1): (0, 1)}, {(2, 3): (1, 2)}, {(0, 1, 2, 3): (1, 3)}]
R = np.sqrt(0.5)
TOPS = [
    {((0, "a"),): 1},
    {((2, "c"),): 1},
    {((2, "c"), (0, "a")): 0.7, ((3, "c"), (1, "a")): -0.7j},
    {((1, "a"),): 0.5 + 0.5j, ((3, "a"),): 1.0},
    {((0, "c"), (0, "a")): 2.0},
    {((0, "c"), (2, "a")): 1j, ((1, "c"), (2, "a")): R, ((1, "c"), (1, "a")): 0.25},
    {((3, "c"), (2, "c")): 1.5},
    {((0, "a"), (1, "a"), (2, "a")): 1.0},
    {((0, "a"), (0, "a")): 1.0},
]
MODES = ["eigen_states", "H_build"]


def BOUNDS(tier):
    return dict(graphs=64, interactions=3, operators=len(TOPS), list_length=2 if tier == "quick" else 3, large="graphs placed in 12 to 130 spin-orbitals; 16 states, 23 operators, 1100 energies; 1287 product states", modes=MODES, krylov=[None, 1, 2, 3])


def cases(tier):
    g = sorted(range(64), key=lambda x: (bin(x).count("1"), x))
    out = [["graph", e, i, r] for e in g for i in range(3) for r in (range(4) if tier == "thorough" else [(e + i) % 4])]
    deep = [(0b101101, 2), (0b111111, 0), (9, 1)]
    out += [["lists", e, i, r, f, int(tier == "thorough")] for e, i in deep for r in range(4) for f in range(len(TOPS))]
    out += [["chain", n, e] for n, e in ([(6, 3), (7, 2), (8, 4)] if tier == "quick" else [(6, 3), (7, 2), (8, 4), (9, 4)])]
    out.append(["weights"])
    out += [["placed", n, m] for n in (12, 33, 70, 130) for m in range(2)]
    out += [["many", m, p] for m in range(2) for p in range(3)]
    out += [["large", m] for m in range(2)]
    return out


def initial(op, restr):
    """Eigenstates in the allowed 2-electron states, a product state and a superposition.

    Amplitudes that a degenerate level leaves near the default cut-off are taken out (they
    would be dropped, legitimately); "weights" is about the cut-off itself."""
    f = [m for m in ref.fock(4, 2) if ref.allowed(m, restr)]
    E, V = np.linalg.eigh(ref.matrix(op, f, restr))
    out = [(float(E[i]), {m: V[j, i] for j, m in enumerate(f) if abs(V[j, i]) > 2e-3}) for i in range(min(2, len(f)))]
    out.append((0.5, {0b0101: 1}))
    out.append((-1.25, {0b0110: 0.6, 0b1010: 0.8j}))
    out.append((0.0, {0b0111: 1}))
    return out


class Oracle:
    def __init__(self, op, restr, delta, w=W):
        self.op, self.restr, self.delta, self.w, self.memo = op, restr, delta, w, {}

    def __call__(self, key, e, psi, tOp, k):
        if (key, k) not in self.memo:
            v = ref.apply(tOp, psi, self.restr)
            v = {m: a for m, a in v.items() if abs(a) > 1e-12}
            z = self.w + 1j * self.delta + e
            if not v:
                g = np.zeros(len(z), dtype=complex)
            else:
                basis = sorted(ref.closure(self.op, v, self.restr))
                H = ref.matrix(self.op, basis, self.restr)
                x = ref.vec(v, basis)
                if k is None:
                    g = ref.resolvent(H, x, z)
                else:
                    g = np.vdot(x, x).real * ref.contfrac(z, *ref.lanczos(H, x, k))
            self.memo[key, k] = g
        return self.memo[key, k]


def spectra(n, op, tOps, psis, es, w, delta, restr, k, mode, where, swm=None):
    from impurityModel.ed.spectra import getSpectra

    o, t = dict(op), [dict(x) for x in tOps]
    ps = [ref.to_code(p, n) for p in psis]
    p0 = [dict(p) for p in ps]
    r = None if restr is None else {frozenset(x): y for x, y in restr.items()}
    kw = {}
    if r is not None:
        kw["restrictions"] = r
    if k is not None:
        kw["krylovSize"] = k
    if mode is not None:
        kw["parallelization_mode"] = mode
    if swm is not None:
        kw["slaterWeightMin"] = swm
    g = getSpectra(n, o, t, ps, es, w, delta, **kw)
    need(o == op and t == list(tOps) and ps == p0, where, "arguments modified")
    need(np.shape(g) == (len(es), len(tOps), len(w)), where, "shape", np.shape(g))
    need(np.all(np.isfinite(g)), where, "not finite")
    need(np.all(g.imag * np.sign(delta) <= 1e-9), where, "spectral function is negative")
    return g


def check(op, restr, delta, ini, ti, k, mode, oracle, res, where):
    es = [ini[i][0] for i, _ in ti[0]]
    es = np.array(es) if len(ti[1]) % 2 else es
    g = spectra(4, op, [TOPS[t] for t in ti[1]], [ini[i][1] for i, _ in ti[0]], es, W, delta, restr, k, mode, where)
    for a, (i, _) in enumerate(ti[0]):
        for b, t in enumerate(ti[1]):
            compare(g[a, b], oracle((i, t), ini[i][0], ini[i][1], TOPS[t], k), f"{where} slot (state {a}, operator {b}):", 2e-8)
            res.transitions += len(W)
    res.traces += 1


def run(case):
    res = Result()
    if case[0] == "chain":
        n, e = case[1:]
        op = chain(n)
        f = ref.fock(n, e)
        E, V = np.linalg.eigh(ref.matrix(op, f))
        ini = [(float(E[i]), {m: V[j, i] for j, m in enumerate(f)}) for i in (0, 1, 4)]
        tops = [{((i, "a"),): 1} for i in (0, n - 1)] + [{((i, "c"),): 1} for i in (1, n // 2)] + [{((i, "c"), (n - 1 - i, "a")): 0.3 + i * 1j for i in range(n // 2)}, {((0, "c"), (0, "a")): 1}]
        for restr in (None, {tuple(range(3)): (0, 2)}):
            if restr:
                ini2 = [(0.2, {f[-1]: 1}), (-0.4, {f[-2]: 0.6, f[-1]: -0.8})]
            else:
                ini2 = ini
            orc = Oracle(op, restr, 0.3)
            for mode in MODES + [None]:
                for k in (None, 4):
                    g = spectra(n, op, tops, [p for _, p in ini2], np.array([x for x, _ in ini2]), W, 0.3, restr, k, mode, f"{case} {mode} krylov {k}", 0)
                    for a, (x, p) in enumerate(ini2):
                        for b, t in enumerate(tops):
                            compare(g[a, b], orc((a, b), x, p, t, k), f"{case} {mode} krylov {k} slot {a, b}", 1e-3 if k is None else 1e-5)
                            res.transitions += len(W)
                    res.traces += 1
            res.states += 1
        res.outcomes.add("chain")
        return res
    if case[0] == "weights":
        # amplitudes well above the default cut-off count, those below may be dropped but change little
        for amp in (1e-1, 1e-2, 2e-3):
            psi = {0b0001: np.sqrt(1 - amp**2), 0b0010: amp}
            for mode in MODES:
                for op in (graph(0, 2), graph(63, 2)):
                    for t in (TOPS[1], TOPS[3], TOPS[5]):
                        orc = Oracle(op, None, 0.1)
                        g = spectra(4, op, [t], [psi], [0.0], W, 0.1, None, None, mode, "weights")
                        compare(g[0, 0], orc(0, 0.0, psi, t, None), f"amplitude {amp} {mode}", 1e-8)
                        res.transitions += len(W)
                        res.traces += 1
            res.states += 1
        return res
    if case[0] == "placed":  # the same small systems inside wide ones, between spectator electrons
        n, mode = case[1], MODES[case[2]]
        for g, i, place, spect in ((63, 2, (0, n // 2, n - 2, n - 1), 1 << 1 | 1 << n // 3), (45, 1, (n - 1, 7, n // 2, 8), sum(1 << k for k in range(9, n // 2)) | 1 << 3)):
            small = graph(g, i)
            op, tops = ref.placed_op(small, place), [ref.placed_op(t, place) for t in TOPS]
            for rr in (None, {(0, 1): (0, 1)}, {(0, 1, 2, 3): (1, 3), (2, 3): (0, 2), (0,): (0, 1)}):
                restr = ref.placed_restr(rr, place)
                if restr is not None:
                    restr[tuple(range(0, n, 2))] = (0, n)
                ini = [(x, ref.placed(p, place, spect)) for x, p in initial(small, rr) if all(ref.allowed(m, rr) for m in p)]
                orc = Oracle(op, restr, 0.2)
                g = spectra(n, op, tops, [p for _, p in ini], [x for x, _ in ini], W, 0.2, restr, None, mode, f"{case}")
                for a, (x, p) in enumerate(ini):
                    for b, t in enumerate(tops):
                        compare(g[a, b], orc((a, b), x, p, t, None), f"{case} restrictions {rr} slot {a, b}", 1e-7)
                        res.transitions += len(W)
                res.traces += 1
                res.states += 1
        res.outcomes.add("placed")
        return res
    if case[0] == "many":  # long lists of states and of operators, long meshes
        mode = MODES[case[1]]
        op = graph(63, 2)
        base = initial(op, None)
        ini = [(base[k % 5][0] + 0.1 * (k // 5), base[k % 5][1]) for k in range((16, 3, 11)[case[2]])]
        tops = [{p: v * (1 + 0.25 * (k // 9)) for p, v in TOPS[(k * 4) % 9].items()} for k in range((3, 23, 11)[case[2]])]
        w = np.linspace(-3, 4, (5, 7, 1100)[case[2]])
        orc = Oracle(op, None, 0.2, w)
        g = spectra(4, op, tops, [p for _, p in ini], np.array([x for x, _ in ini]), w, 0.2, None, None, mode, f"{case}")
        for a, (x, p) in enumerate(ini):
            for b, t in enumerate(tops):
                compare(g[a, b], orc((a, b), x, p, t, None), f"{case} slot {a, b}", 1e-7)
                res.transitions += len(w)
        res.traces += 1
        res.states += 1
        res.outcomes.add("many")
        return res
    if case[0] == "large":  # more than a thousand product states
        mode = MODES[case[1]]
        n, f = 13, ref.fock(13, 4)
        op = chain(n)
        psi = {m: (1 + (i % 3)) * (-1) ** (i // 2) * 0.02 for i, m in enumerate(f[::2])}
        tops = [{((i, "c"),): 1.0 for i in range(n)}, {((0, "a"),): 1.0, ((5, "a"),): 2j}, {((i, "c"), ((i + 3) % n, "a")): 0.5 for i in range(n)}]
        g = spectra(n, op, tops, [psi, {f[7]: 1.0}], [-2.0, 0.5], W, 0.3, None, 9, mode, f"{case}", 0)
        orc = Oracle(op, None, 0.3)
        for a, (x, p) in enumerate(((-2.0, psi), (0.5, {f[7]: 1.0}))):
            for b, t in enumerate(tops):
                compare(g[a, b], orc((a, b), x, p, t, 9), f"{case} slot {a, b}", 1e-5)
                res.transitions += len(W)
        res.traces += 1
        res.states += 1
        res.outcomes.add("large")
        return res
    op = graph(case[1], case[2])
    restr = RESTR[case[3]]
    ini = [x for x in initial(op, restr) if all(ref.allowed(m, restr) for m in x[1])]
    where = f"getSpectra {case}"
    if case[0] == "graph":
        everything = list(range(len(TOPS)))
        for sl in ([(i, 0) for i in range(len(ini))], [(i, 0) for i in reversed(range(len(ini)))], [(0, 0), (0, 1)]):
            for ops in (everything, everything[::-1]):
                for delta in (0.2, -0.35):
                    orc = Oracle(op, restr, delta)
                    for k in (None, 1, 2, 3) if sl[0] == (0, 0) and ops[0] == 0 and delta > 0 else (None, 2) if delta > 0 else (None,):
                        for mode in MODES:
                            check(op, restr, delta, ini, (sl, ops), k, mode, orc, res, f"{where} states {sl} operators {ops} delta {delta} krylov {k} {mode}")
        res.states += 6
        res.outcomes.add("%d states" % len(ini))
    else:
        orc = Oracle(op, restr, 0.2)
        first = case[4]
        ssets = [[(i, 0)] for i in range(len(ini))] + [[(i, 0), (j, 0)] for i in range(len(ini)) for j in range(len(ini)) if case[5] or (i + j) % 2 == 0]
        for length in (0, 1) if len(ssets) else ():
            for rest in itertools.product(range(len(TOPS)), repeat=length):
                ops = (first,) + rest
                for sl in ssets:
                    mode = MODES[(sum(ops) + len(sl)) % 2]
                    for m in MODES if length == 0 else (mode,):
                        check(op, restr, 0.2, ini, (sl, ops), None, m, orc, res, f"{where} states {sl} operators {ops} {m}")
                res.states += 1
        for sl in itertools.permutations(range(len(ini) if case[5] else 3), 3):
            for ops in itertools.product((first,), range(0, len(TOPS), 2), range(1, len(TOPS), 2)):
                check(op, restr, 0.2, ini, ([(i, 0) for i in sl], ops), None, MODES[(ops[1] + sl[0]) % 2], orc, res, f"{where} states {sl} operators {ops}")
        res.outcomes.add("lists")
    return res
