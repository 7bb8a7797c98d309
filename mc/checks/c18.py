"""C18: RIXS maps.

A two-shell model (core, valence and continuum-like spin-orbitals) with every valence
hopping graph, every ordered list of incoming and outgoing operators up to length 2 (3)
from alphabets of 6 and 5 (dipole-like, circular, number-changing, annihilating), lists
of initial states, incoming-energy meshes of 1-4 points in any order, limited Krylov
sizes, restrictions, shared stores of Hamiltonian results and all four parallelisation
modes. Oracle: two direct solutions of linear systems (Kramers-Heisenberg), slot by slot.
"""

import itertools

import numpy as np

from mc import ref
from mc.checks.c16 import compare  # noqa: F401
from mc.harness import Result, need

ID = "C18"
MEANING = "states: (Hamiltonian, operator lists, states, mesh) inputs; transitions: map values compared; traces: calls of the real code"
MODES = ["serial", "H_build", "wIn", "H_build_wIn"]
N = 5  # 0,1 core; 2,3,4 valence
PAIRS = [(2, 3), (2, 4), (3, 4)]
WIN = [-2.0, 0.4, 1.3, 3.0]
WLOSS = np.array([-0.5, 0.2, 1.0, 2.6])
D1, D2 = 0.3, 0.15
R = np.sqrt(0.5)
TIN = [
    {((2, "c"), (0, "a")): 1.0, ((3, "c"), (1, "a")): 1.0},
    {((3, "c"), (0, "a")): R, ((4, "c"), (1, "a")): 1j * R},
    {((4, "c"), (0, "a")): 0.3 - 0.4j, ((2, "c"), (1, "a")): -0.8},
    {((2, "c"), (0, "a")): 1.0, ((0, "a"),): 0.5},
    {((0, "c"), (2, "a")): 1.0},  # annihilates every state with a full core
    {((3, "c"), (0, "a")): 2.0},
]
TOUT = [
    {((0, "c"), (2, "a")): 1.0, ((1, "c"), (3, "a")): 1.0},
    {((0, "c"), (3, "a")): R, ((1, "c"), (4, "a")): -1j * R},
    {((0, "c"), (4, "a")): 0.3 + 0.4j, ((1, "c"), (2, "a")): -0.8},
    {((1, "c"), (4, "a")): 1.0},
    {((0, "a"), (1, "a")): 1.0},  # annihilates every state with one core electron
]


def BOUNDS(tier):
    return dict(valence_graphs=8, interactions=3, incoming=len(TIN), outgoing=len(TOUT), list_length=2 if tier == "quick" else 3, modes=MODES, large="graphs placed in 12 to 130 spin-orbitals; 13 states, 13 operators, 60 x 700 energies", meshes="all orders of up to 3 (4) incoming energies")


def hamiltonian(g, inter):
    op = {}
    for k, (i, j) in enumerate(PAIRS):
        if g >> k & 1:
            v = 0.6 + 0.35j * k
            op[((i, "c"), (j, "a"))] = v
            op[((j, "c"), (i, "a"))] = np.conj(v)
    for i, x in enumerate((-4.0, -3.5, 0.1, 0.5, 1.2)):
        op[((i, "c"), (i, "a"))] = x
    if inter:
        op[((2, "c"), (3, "c"), (3, "a"), (2, "a"))] = 1.1
        for i in (2, 3, 4):
            for c in (0, 1):
                op[((c, "c"), (i, "c"), (i, "a"), (c, "a"))] = 0.4 + 0.1 * i + 0.05 * c
    if inter == 2:
        op[((0, "c"), (2, "c"), (3, "a"), (1, "a"))] = 0.2j
        op[((1, "c"), (3, "c"), (2, "a"), (0, "a"))] = -0.2j
        # core-core mixing
        op[((0, "c"), (1, "a"))] = 0.25
        op[((1, "c"), (0, "a"))] = 0.25
    return op


RESTR = [None, {(2, 3, 4): (0, 2)}, {(4,): (0, 0)}, {(2, 3): (0, 1), (0, 1): (1, 2)}]


def initial(op, restr):
    """States with a full core (and with 1 or 2 valence electrons)."""
    out = []
    f = [3 | m << 2 for m in (1, 2, 4) if ref.allowed(3 | m << 2, restr)]
    E, V = np.linalg.eigh(ref.matrix(op, f, restr))
    for i in range(len(f)):
        out.append((float(E[i]), {m: V[j, i] for j, m in enumerate(f) if abs(V[j, i]) > 1e-12}))
    for e, p in ((-0.3, {0b01011: 0.6, 0b00111: 0.8j}), (-6.0, {0b01111: 1}), (-7.0, {0b11111: 1}), (0.4, {0b00011: 1})):
        if all(ref.allowed(m, restr) for m in p):
            out.append((e, p))
    return out


def cases(tier):
    out = [["all", g, i, r, m] for g in range(8) for i in range(3) for r in range(4) for m in range(4)]
    deep = [(7, 2, 0), (5, 1, 1), (0, 0, 0)] if tier == "quick" else [(g, i, r) for g in range(8) for i in (0, 2) for r in range(3)]
    out += [["lists", g, i, r, a, int(tier == "thorough")] for g, i, r in deep for a in range(len(TIN))]
    out += [["mesh", g, 2, r, m] for g in (7, 1) for r in (0, 1) for m in range(4)]
    out += [["big", m] for m in range(4)]
    out += [["placed", n, m] for n in (12, 33, 70, 130) for m in range(4)]
    out += [["many", p, m] for p in range(4) for m in range(4)]
    out += [["weights", g, m] for g in (0, 5, 7) for m in range(4)]
    return out


class Oracle:
    def __init__(self, op, restr, k=None, tin=TIN, tout=TOUT, loss=WLOSS):
        self.loss = loss
        self.op, self.restr, self.k, self.memo, self.tin, self.tout = op, restr, k, {}, tin, tout

    def second(self, key, e, psi, a, w):
        k = ("2", key, a, w)
        if k not in self.memo:
            p1 = {m: x for m, x in ref.apply(self.tin[a], psi, self.restr).items() if abs(x) > 1e-12}
            p2 = {}
            if p1:
                basis = sorted(ref.closure(self.op, p1, self.restr))
                H = ref.matrix(self.op, basis, self.restr)
                x = np.linalg.solve((w + 1j * D1 + e) * np.eye(len(basis)) - H, ref.vec(p1, basis))
                p2 = {m: x[i] for i, m in enumerate(basis)}
            self.memo[k] = p2
        return self.memo[k]

    def __call__(self, key, e, psi, a, b, w):
        k = (key, a, b, w)
        if k not in self.memo:
            p3 = {m: x for m, x in ref.apply(self.tout[b], self.second(key, e, psi, a, w), self.restr).items() if abs(x) > 1e-13}
            if not p3:
                g = np.zeros(len(self.loss), dtype=complex)
            else:
                basis = sorted(ref.closure(self.op, p3, self.restr))
                H = ref.matrix(self.op, basis, self.restr)
                v = ref.vec(p3, basis)
                z = self.loss + 1j * D2 + e
                g = ref.resolvent(H, v, z) if self.k is None else np.vdot(v, v).real * ref.contfrac(z, *ref.lanczos(H, v, self.k))
            self.memo[k] = g
        return self.memo[k]


def rixs(n, op, tin, tout, psis, es, wins, restr, k, mode, store, where, swm=1e-14, loss=WLOSS):
    from impurityModel.ed.spectra import getRIXSmap

    o, ti, to = dict(op), [dict(x) for x in tin], [dict(x) for x in tout]
    ps = [ref.to_code(p, n) for p in psis]
    p0 = [dict(p) for p in ps]
    r = None if restr is None else {frozenset(x): y for x, y in restr.items()}
    kw = {} if swm is None else dict(slaterWeightMin=swm)
    if r is not None:
        kw["restrictions"] = r
    if k is not None:
        kw["krylovSize"] = k
    if store is not None:
        kw["h_dict_ground"] = store
    if mode is not None:
        kw["parallelization_mode"] = mode
    g = getRIXSmap(n, o, ti, to, ps, es, wins, loss, D1, D2, **kw)
    need(o == op and ti == list(tin) and to == list(tout) and ps == p0, where, "arguments modified")
    need(np.shape(g) == (len(es), len(tin), len(tout), len(wins), len(loss)), where, "shape", np.shape(g))
    need(np.all(np.isfinite(g)), where, "not finite")
    need(np.all(g.imag <= 1e-9), where, "negative intensity")
    return g


TOL = 2e-4


def check(op, restr, ini, si, ai, bi, wins, k, mode, store, orc, res, where):
    where = f"{where} states {si} in {ai} out {bi} wIn {list(wins)} krylov {k} {mode}:"
    g = rixs(N, op, [TIN[a] for a in ai], [TOUT[b] for b in bi], [ini[i][1] for i in si], [ini[i][0] for i in si], wins, restr, k, mode, store, where)
    for (x, i), (y, a), (z, b) in itertools.product(enumerate(si), enumerate(ai), enumerate(bi)):
        scale = None
        for q, w in enumerate(wins):
            want = orc(i, ini[i][0], ini[i][1], a, b, float(w))
            got = g[x, y, z, q]
            # the linear solver of the code stops at a relative residual of 1e-5
            p2 = orc.second(i, ini[i][0], ini[i][1], a, float(w))
            scale = sum(abs(v) ** 2 for v in p2.values()) / D2 + 1e-9
            need(np.all(abs(got - want) <= TOL * scale), where, "slot", (x, y, z, q), "is", got, "expected", want)
            res.transitions += len(WLOSS)
    res.traces += 1


def run(case):
    res = Result()
    if case[0] == "big":
        return big(case, res)
    if case[0] == "placed":
        return placed(case, res)
    if case[0] == "many":
        return many(case, res)
    if case[0] == "weights":
        return weights(case, res)
    op = hamiltonian(case[1], case[2])
    restr = RESTR[case[3]]
    ini = initial(op, restr)
    orc = Oracle(op, restr)
    where = f"getRIXSmap {case}"
    if case[0] == "all":
        mode = MODES[case[4]]
        everyone = list(range(len(ini)))
        check(op, restr, ini, everyone, range(len(TIN)), range(len(TOUT)), WIN[:2], None, mode, None, orc, res, where)
        check(op, restr, ini, everyone[::-1], range(len(TIN))[::-1], range(len(TOUT))[::-1], np.array(WIN[1:3]), None, mode, {}, orc, res, where)
        for k in (1, 2):
            check(op, restr, ini, everyone[:2], range(3), range(3), WIN[:2], k, mode, None, Oracle(op, restr, k), res, where)
        store = {}
        for s in everyone:
            check(op, restr, ini, [s], [0, 1], [1], WIN[:1], None, mode, store, orc, res, where + " with a shared store")
        for b, col in store.items():
            x = {q: a for q, a in ref.apply(op, {ref.dec(b, N): 1}, restr).items() if abs(a) > 1e-6}
            need(ref.close(ref.from_code(col, N), x), where, "stored result of", b, "is", col)
        if case[4] == 3:
            check(op, restr, ini, everyone, [0, 2], [0, 1], WIN[:1], None, None, None, orc, res, where + " default mode")
        res.states += 6
        res.outcomes.add("%d states" % len(ini))
    elif case[0] == "lists":
        a, deep = case[4], case[5]
        for rest in itertools.chain([()], itertools.product(range(len(TIN)), repeat=1)):
            for bl in (1, 2, 3) if deep else (1, 2):
                for bi in itertools.product(range(len(TOUT)), repeat=bl):
                    mode = MODES[(sum(bi) + a + len(rest)) % 4]
                    check(op, restr, ini, [(a + len(bi)) % len(ini)], (a,) + rest, bi, WIN[1:3], None, mode, None, orc, res, where)
                    res.states += 1
        for si in itertools.chain(*(itertools.product(range(len(ini)), repeat=k) for k in (1, 2))):
            check(op, restr, ini, si, (a,), (0, 2), WIN[:1], None, MODES[sum(si) % 4], {} if len(si) == 2 else None, orc, res, where)
            res.states += 1
        res.outcomes.add("lists")
    else:
        mode = MODES[case[4]]
        for k in range(1, 5):
            for wins in itertools.permutations(WIN, k):
                for typ in (list, np.array):
                    check(op, restr, ini, [0, len(ini) - 1], [1, 4, 2], [0, 2], typ(wins), None, mode, None, orc, res, where)
                res.states += 1
        for wins in ([0.4, 0.4, -2.0], [1.3] * 3):
            check(op, restr, ini, [0, 1], [1], [0, 3], wins, None, mode, None, orc, res, where)
        res.outcomes.add("mesh")
    return res


def big(case, res):
    """A 2-electron-core / 8-orbital system, iterative solver proper."""
    mode = MODES[case[1]]
    n = 8
    op = {}
    for i in range(2, n):
        j = i + 1 if i + 1 < n else 2
        v = -0.8 + 0.1j * i
        op[((i, "c"), (j, "a"))] = v
        op[((j, "c"), (i, "a"))] = np.conj(v)
        op[((i, "c"), (i, "a"))] = 0.2 * (i % 3)
        op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = 0.5 + 0.07 * i
        for c in (0, 1):
            op[((c, "c"), (i, "c"), (i, "a"), (c, "a"))] = 0.6 - 0.05 * i
    op[((0, "c"), (0, "a"))] = -5.0
    op[((1, "c"), (1, "a"))] = -4.6
    tin = [{((2 + k, "c"), (0, "a")): 1.0, ((3 + k, "c"), (1, "a")): 0.5j} for k in range(3)]
    tout = [{((0, "c"), (2 + k, "a")): 1.0, ((1, "c"), (4 + k, "a")): -0.5j} for k in range(3)]
    f = [3 | m << 2 for m in ref.fock(6, 3)]
    E, V = np.linalg.eigh(ref.matrix(op, f))
    ini = [(float(E[i]), {m: V[j, i] for j, m in enumerate(f)}) for i in (0, 1, 3)]
    wins = [4.0, 5.5, 7.0]
    for restr in (None, {(2, 3, 4, 5, 6, 7): (2, 4)}):
        orc = Oracle(op, restr, None, tin, tout)
        g = rixs(n, op, tin, tout, [p for _, p in ini], np.array([e for e, _ in ini]), wins, restr, None, mode, None, f"{case}", 1e-12)
        for (x, (e, p)), a, b, (q, w) in itertools.product(enumerate(ini), range(3), range(3), enumerate(wins)):
            want = orc(x, e, p, a, b, w)
            scale = sum(abs(v) ** 2 for v in orc.second(x, e, p, a, w).values()) / D2
            need(np.all(abs(g[x, a, b, q] - want) <= 1e-3 * scale), case, "slot", (x, a, b, q), "is", g[x, a, b, q], "expected", want)
            res.transitions += len(WLOSS)
        res.traces += 1
        res.states += 1
    res.outcomes.add("big")
    return res


def slots(g, orc, ini, na, nb, wins, res, where):
    for (x, (e, p)), a, b, (q, w) in itertools.product(enumerate(ini), range(na), range(nb), enumerate(wins)):
        want = orc(x, e, p, a, b, float(w))
        scale = sum(abs(v) ** 2 for v in orc.second(x, e, p, a, float(w)).values()) / D2 + 1e-9
        need(np.all(abs(g[x, a, b, q] - want) <= TOL * scale), where, "slot", (x, a, b, q), "is", g[x, a, b, q][:5], "expected", want[:5])
        res.transitions += len(want)
    res.traces += 1
    res.states += 1


def placed(case, res):
    """The same small systems inside wide ones, between spectator electrons."""
    n, mode = case[1], MODES[case[2]]
    for g, i, place, spect in ((7, 2, (0, n // 2, n - 3, n - 2, n - 1), 1 << 1 | 1 << n // 3), (5, 1, (n - 1, 7, n // 2, 8, 0), sum(1 << k for k in range(9, n // 2)) | 1 << 3)):
        small = hamiltonian(g, i)
        op, tin, tout = ref.placed_op(small, place), [ref.placed_op(t, place) for t in TIN], [ref.placed_op(t, place) for t in TOUT]
        for rr in (None, {(2, 3, 4): (0, 2)}, {(2, 3): (0, 1), (0, 1): (1, 2), (2, 3, 4): (0, 3)}):
            restr = ref.placed_restr(rr, place)
            if restr is not None:
                restr[tuple(range(0, n, 2))] = (0, n)
            ini = [(x, ref.placed(p, place, spect)) for x, p in initial(small, rr)][:5]
            where = f"getRIXSmap {case} restrictions {rr}"
            g = rixs(n, op, tin, tout, [p for _, p in ini], [e for e, _ in ini], WIN[:2], restr, None, mode, None, where)
            slots(g, Oracle(op, restr, None, tin, tout), ini, len(tin), len(tout), WIN[:2], res, where)
    res.outcomes.add("placed")
    return res


def weights(case, res):
    """Product states of small weight: those well above the cut-off contribute."""
    op, mode = hamiltonian(case[1], 2 if case[1] else 0), MODES[case[2]]
    swms = (None, 1e-9, 1e-5, 1e-3, 1e-2)
    for b in (0.3, 0.03, 0.01, 0.006, 0.002, 1e-4, 1e-7):
        tin = [{((2, "c"), (0, "a")): 1.0, ((3, "c"), (1, "a")): b}, {((4, "c"), (0, "a")): 1j, ((4, "c"), (1, "a")): b}]
        tout = [{((0, "c"), (2, "a")): 1.0, ((1, "c"), (2, "a")): b, ((0, "c"), (3, "a")): b}, {((0, "c"), (4, "a")): 1.0, ((0, "c"), (2, "a")): -b, ((1, "c"), (4, "a")): 1j * b}]
        ini = [(-0.4, {0b00111: 1.0}), (0.3, {0b01011: np.sqrt(1 - b * b), 0b00111: b})]
        orc = Oracle(op, None, None, tin, tout)
        for e, p in ini:
            key = ini.index((e, p))
            for a, c in itertools.product(range(2), repeat=2):
                for swm in swms:
                    cut, least = 1e-7 if swm is None else swm, 1.0
                    for w in WIN[1:3]:
                        p1 = ref.apply(tin[a], p)
                        p3 = ref.apply(tout[c], orc.second(key, e, p, a, w))
                        n3 = sum(abs(x) ** 2 for x in p3.values())
                        for x in list(p1.values()) + list(p3.values()) + [y / np.sqrt(n3) for y in p3.values()]:
                            if abs(x) > 1e-12:
                                least = min(least, abs(x) ** 2)
                    # product states near or below the cut-off may be dropped
                    tol = 6e-5 if least > 2 * cut else 2e-4 + 20 * np.sqrt(cut)
                    for restr in (None, {(0, 1, 2, 3, 4): (0, 5)}):
                        where = f"getRIXSmap {case} small part {b} state {key} operators {a, c} cut-off {swm} restrictions {restr}"
                        g = rixs(N, op, [tin[a]], [tout[c]], [p], [e], WIN[1:3], restr, None, mode, None, where, swm)
                        for q, w in enumerate(WIN[1:3]):
                            want = orc(key, e, p, a, c, w)
                            scale = (sum(abs(v) ** 2 for v in orc.second(key, e, p, a, w).values()) + (tol > 1e-4)) / D2
                            need(np.all(abs(g[0, 0, 0, q] - want) <= tol * scale), where, "is", g[0, 0, 0, q], "expected", want)
                            res.transitions += len(WLOSS)
                        res.traces += 1
                    res.states += 1
    res.outcomes.add("weights")
    return res


def many(case, res):
    """Long lists: states, incoming operators, outgoing operators, both meshes."""
    kind, mode = case[1], MODES[case[2]]
    op = hamiltonian(7, 2)
    base = initial(op, None)
    ini = [(base[k % len(base)][0] + 0.1 * (k // len(base)), base[k % len(base)][1]) for k in range(13 if kind == 0 else 2)]
    tin = [{p: v * (1 + 0.25 * (k // 6)) for p, v in TIN[(5 * k) % 6].items()} for k in range(13 if kind == 1 else 2)]
    tout = [{p: v * (1 + 0.25 * (k // 5)) for p, v in TOUT[(3 * k) % 5].items()} for k in range(13 if kind == 2 else 2)]
    wins = np.linspace(-3, 4, 60) if kind == 3 else WIN[1:3]
    loss = np.linspace(-1, 4, 700) if kind == 3 else WLOSS
    where = f"getRIXSmap {case}"
    g = rixs(N, op, tin, tout, [p for _, p in ini], [e for e, _ in ini], wins, None, None, mode, None, where, loss=loss)
    slots(g, Oracle(op, None, None, tin, tout, loss), ini, len(tin), len(tout), wins, res, where)
    res.outcomes.add("many")
    return res
