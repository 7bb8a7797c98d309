"""C23: results do not depend on the number of ranks.

Eigenstates, Green's functions, spectra and RIXS maps are computed by the real code on
1-4 virtual ranks (processes with different hash seeds) in every parallelisation mode;
a controller explores the message schedules in two buffering modes within a bound of
departures from the default. Systems are chosen to have fewer states, operators,
incoming energies or product states than ranks, empty excited states, exactly exhausted
Krylov spaces and restrictions.
Results are compared with the single-rank result and with exact reference calculations:
on every rank for the modes distributing eigenstates or incoming energies, on rank 0 for
the modes distributing the Hamiltonian.
"""

import numpy as np

from mc import mpicheck, ref
from mc.checks import c17, c18
from mc.checks.c15 import chain, graph
from mc.checks.c16 import MODES as GMODES
from mc.checks.c16 import STATES, exact
from mc.harness import Result, need

ID = "C23"
MEANING = "states: scheduling points visited; transitions: communication calls and completions; traces: complete executions (schedules) of the real code on all ranks"
ASSUMPTIONS = ["all ranks are given the same input", "MPI semantics of mc/mpicore.py"]
TIMEOUT = 600
worker_exit = mpicheck.close
W = np.array([-1.5, 0.2, 1.1])


def BOUNDS(tier):
    return dict(ranks="1..4 (5, 7: default schedules)", large="70 spin-orbitals, 252 product states, 14 states, 13 operators, 150 energies", deviations="1 (selected), 0 (others)" if tier == "quick" else "2 (selected), 1 (others)", modes="all parallelisation modes", hash_seeds=1 if tier == "quick" else 2)


def cases(tier):
    deep = tier == "thorough"
    out = []
    gs = (0, 9, 33, 45, 63) if not deep else range(0, 64, 3)
    for size in (2, 3, 4):
        for g in gs:
            out.append(["green", size, g, 2, 1 if deep else 0, 0])
            out.append(["spectra", size, g, 2, 0, 0])
        # Hamiltonians for which the Krylov space is exhausted exactly (in floating point numbers)
        for g, inter in ((0, 0), (33, 1)):
            out.append(["green", size, g, inter, 1 if deep else 0, 0])
            out.append(["spectra", size, g, inter, 0, 0])
        for g in (0, 5, 7):
            for mode in c18.MODES:
                out.append(["rixs", size, g, mode, 0, 0])
        out.append(["eigen", size, 0])
    for size in (2, 3):
        out += [["green", size, 45, 2, 1, s] for s in range(2 if deep else 1)]
        out += [["spectra", size, 9, 2, 1, s] for s in range(2 if deep else 1)]
        out += [["rixs", size, 1, mode, 1, s] for s in range(2 if deep else 1) for mode in c18.MODES]
        if deep:
            out += [["green", size, 33, 0, 2, 0], ["spectra", size, 1, 0, 2, 0]]
    out.append(["eigen", 3, 1])
    out += [["calls", size, i, (2 if deep and size < 3 else 1) if size < 4 else 0] for size in (2, 3, 4) for i in range(len(CALLS))]
    for size in (5, 7):
        out += [["green", size, 45, 2, 0, 0], ["spectra", size, 9, 2, 0, 0], ["eigen", size, 0]] + [["rixs", size, 5, mode, 0, 0] for mode in c18.MODES]
    for size in (2, 3, 5):
        out += [["large", size, par] for par in range(len(LARGE))]
    return list({str(c): c for c in out}.values())


CALLS = [("eigen_states",) * 2, ("H_build",) * 2, ("wIn",) * 2, ("H_build_wIn",) * 2, ("green",) * 2, ("eigen_states", "wIn"), ("wIn", "H_build"), ("green", "eigen_states"), ("serial", "H_build_wIn")]


def calls(case, res):
    """Calculations following each other without synchronisation; any rank, sender or channel may be arbitrarily late."""
    _, size, which, bound = case
    names, todo = CALLS[which], []
    names = names + (names[0],)
    for i, name in enumerate(names):
        op = graph((45, 9, 33)[i], 2)
        if name == "green":
            psi = STATES[(7, 1, 4)[i]]
            todo.append((("green", (4, -0.3, [ref.to_code(psi, 4)], op, W, 0.2, 3, 0, None, "sparse", "H_build")), [0], exact(op, psi, None, -0.3, W, 0.2, [3])[2][3], 1e-7))
        elif name in ("eigen_states", "H_build"):
            ini = c17.initial(op, None)[: size + 1 - i]
            ts = [(1, 8), (0, 2), (5,)][i]
            orc = c17.Oracle(op, None, 0.2, W)
            want = np.array([[orc((a, t), e, p, c17.TOPS[t], 5) for t in ts] for a, (e, p) in enumerate(ini)])
            args = (4, op, [c17.TOPS[t] for t in ts], [ref.to_code(p, 4) for _, p in ini], [e for e, _ in ini], W, 0.2, None, 5, 0, name)
            todo.append((("spectra", args), range(size) if name == "eigen_states" else [0], want, 1e-7))
        else:
            op = c18.hamiltonian((1, 5, 7)[i], 2)
            ini, orc = c18.initial(op, None)[:1], c18.Oracle(op, None)
            ai, bi, wins = [(0, 1), (1,), (0,)][i], [(2,), (0,), (2, 1)][i], c18.WIN[: 3 - i]
            want = np.array([[[[orc(0, ini[0][0], ini[0][1], a, b, float(x)) for x in wins] for b in bi] for a in ai]])
            args = (5, op, [c18.TIN[a] for a in ai], [c18.TOUT[b] for b in bi], [ref.to_code(ini[0][1], 5)], [ini[0][0]], wins, c18.WLOSS, c18.D1, c18.D2, None, 20, 1e-14, name)
            todo.append((("rixs", args), [0] if name.startswith("H_build") else range(size), want, 2e-4))

    def judge(results, w):
        for i, (_, who, want, tol) in enumerate(todo):
            for r in who:
                near(np.array(results[r][i][0] if names[i] == "green" else results[r][i]), want, w + f" call {i} rank {r}", tol)

    mpicheck.every(size, "several", [([t[0] for t in todo],)] * size, bound if len(set(names)) == 1 and names[0] in ("eigen_states", "green") else 0, res, judge, f"{case} {names}", delays=True)


LARGE = [("green", "serial"), ("green", "H_build"), ("spectra", "eigen_states"), ("spectra", "H_build")] + [("rixs", m) for m in c18.MODES] + [("lists", "eigen_states"), ("lists", "H_build")]


def large(case, res):
    """Wide systems with hundreds of product states, long meshes and long lists."""
    size, (kind, par) = case[1], LARGE[case[2]]
    if kind in ("green", "spectra"):
        for n, e, small in ((10, 4, None), (70, None, graph(63, 2))):
            place = (0, n // 2, n - 2, n - 1)
            spect = 1 << 1 | 1 << n // 3
            op = chain(n) if small is None else ref.placed_op(small, place)
            psi = {m: (0.1 + 0.01 * (i % 3)) * (-1) ** (i // 2) for i, m in enumerate(ref.fock(n, e)[::3])} if small is None else ref.placed(STATES[7], place, spect)
            nn = np.sqrt(sum(abs(a) ** 2 for a in psi.values()))
            psi = {m: a / nn for m, a in psi.items()}
            w = np.linspace(-3, 2, 150)
            if kind == "green":
                want = exact(op, psi, None, -0.3, w, 0.2, [7])[2][7]

                def judge(results, x):
                    for r in range(size) if par == "serial" else (0,):
                        near(results[r][0], want, x + f" rank {r}", 1e-5)

                for mode in ("sparse", "dense"):
                    mpicheck.every(size, "green", [(n, -0.3, [ref.to_code(psi, n)], op, w, 0.2, 7, 0, None, mode, par)] * size, 0, res, judge, f"{case} n={n} {mode}")
            else:
                tops = [{((place[1], "c"),): 1.0}, {((place[2], "a"),): 1.0, ((place[1], "a"),): 0.5j}, {((place[0], "c"), (place[2], "a")): 1.0, ((place[3], "c"), (place[1], "a")): 0.3}]
                orc = c17.Oracle(op, None, 0.2, w)
                want2 = [orc(b, -0.3, psi, t, 7) for b, t in enumerate(tops)]

                def judge(results, x):
                    for r in range(size) if par != "H_build" else (0,):
                        need(np.shape(results[r]) == (1, len(tops), len(w)), x, "shape", np.shape(results[r]))
                        for b in range(len(tops)):
                            near(results[r][0, b], want2[b], x + f" rank {r} operator {b}", 1e-5)

                mpicheck.every(size, "spectra", [(n, op, tops, [ref.to_code(psi, n)], [-0.3], w, 0.2, None, 7, 0, par)] * size, 0, res, judge, f"{case} n={n}")
    elif kind == "lists":
        op = graph(63, 2)
        base = c17.initial(op, None)
        for ns, nt in ((14, 2), (3, 13)):
            ini = [(base[k % 5][0] + 0.1 * (k // 5), base[k % 5][1]) for k in range(ns)]
            tops = [{p: v * (1 + 0.25 * (k // 9)) for p, v in c17.TOPS[(k * 4) % 9].items()} for k in range(nt)]
            orc = c17.Oracle(op, None, 0.2, W)

            def judge(results, x):
                for r in range(size) if par != "H_build" else (0,):
                    need(np.shape(results[r]) == (ns, nt, len(W)), x, "shape", np.shape(results[r]))
                    for a, (e, p) in enumerate(ini):
                        for b, t in enumerate(tops):
                            near(results[r][a, b], orc((a, b), e, p, t, 5), x + f" rank {r} slot {a, b}")

            mpicheck.every(size, "spectra", [(4, op, tops, [ref.to_code(p, 4) for _, p in ini], [e for e, _ in ini], W, 0.2, None, 5, 0, par)] * size, 0, res, judge, f"{case} {ns} states {nt} operators")
    else:
        small = c18.hamiltonian(7, 2)
        for n, ns, wins in ((5, 12, c18.WIN[:2]), (70, 2, list(np.linspace(-2, 3, 23)))):
            place, spect = ((0, 1, 2, 3, 4), 0) if n == 5 else ((0, n // 2, n - 3, n - 2, n - 1), 1 << 1 | 1 << n // 3)
            op, tin, tout = ref.placed_op(small, place), [ref.placed_op(t, place) for t in c18.TIN[:3]], [ref.placed_op(t, place) for t in c18.TOUT[1:3]]
            base = c18.initial(small, None)
            ini = [(base[k % len(base)][0] + 0.1 * (k // len(base)), ref.placed(base[k % len(base)][1], place, spect)) for k in range(ns)]
            orc = c18.Oracle(op, None, None, tin, tout)

            def judge(results, x):
                for r in (0,) if par == "H_build" else range(size):
                    gg = results[r]
                    need(np.shape(gg) == (ns, len(tin), len(tout), len(wins), len(c18.WLOSS)), x, "rank", r, "shape", np.shape(gg))
                    c18.slots(gg, orc, ini, len(tin), len(tout), wins, Result(), x + f" rank {r}")

            args = [(n, op, tin, tout, [ref.to_code(p, n) for _, p in ini], [e for e, _ in ini], wins, c18.WLOSS, c18.D1, c18.D2, None, 20, 1e-14, par)] * size
            mpicheck.every(size, "rixs", args, 0, res, judge, f"{case} n={n}")


def near(a, b, w, tol=1e-7):
    need(np.shape(a) == np.shape(b), w, "shape", np.shape(a), "expected", np.shape(b))
    d = abs(a - b) / (1 + abs(b))
    need(np.all(np.isfinite(a)) and d.max(initial=0) <= tol, w, "is", a, "expected", b)


def run(case):
    res = Result()
    globals()[case[0]](case, res)
    res.outcomes.add("%s %d ranks" % (case[0], case[1]))
    return res


def eigen(case, res):
    size, bound = case[1:]
    systems = [(4, graph(63, 2), ref.fock(4, 2)), (4, graph(45, 1), ref.fock(4)), (6, chain(6), ref.fock(6, 3)), (4, graph(63, 2), [0b0001, 0b0010]), (4, graph(0, 2), [0b0011]), (7, chain(7), ref.fock(7, 3))]
    for n, op, basis in systems[:3 if bound else 9]:
        E, V = np.linalg.eigh(ref.matrix(op, basis))
        for k in (1, 3, len(basis)):
            for mode in ("Lanczos", "full"):

                def judge(results, w):
                    for r, (es, psis) in enumerate(results):
                        near(np.array(es), E[: len(es)], w + f" rank {r} energies", 1e-6)
                        need(len(es) == len(psis) == min(k, len(basis)), w, "rank", r, "number of states", len(es))
                        need(len(psis) == len(results[0][1]), w, "number of states differs")
                        for i, (p, q) in enumerate(zip(psis, results[0][1])):
                            need(all(abs(p.get(x, 0) - q.get(x, 0)) < 1e-5 for x in set(p) | set(q)), w, "state", i, "on rank", r, "differs from the one on rank 0")
                            v = np.array([p.get(ref.enc(m, n), 0) for m in basis])
                            P = V[:, abs(E - es[i]) < 1e-5]
                            need(abs(np.linalg.norm(P.conj().T @ v) - 1) < 1e-4, w, "rank", r, "state", i, "is not an eigenstate")

                mpicheck.every(size, "eigen", [(n, op, [ref.enc(m, n) for m in basis], k, mode)] * size, bound, res, judge, f"{case} basis {len(basis)}, {k} states, {mode}")


def green(case, res):
    _, size, g, inter, bound, seed = case
    op = graph(g, inter)
    for restr in (None, {(0, 1): (0, 1)}):
        sel = [p for p in STATES if all(ref.allowed(m, restr) for m in p)]
        groups = [[i] for i in range(len(sel))] + [[0, 2, 0], [-1, 1, 2]]
        for mode, par in GMODES:
            for gi, grp in enumerate(groups):
                if bound and gi not in (2, 6, len(groups) - 1):
                    continue
                psis = [sel[i] for i in grp]
                k = (2, 9)[gi % 2]
                want = [exact(op, p, restr, -0.3, W, 0.2, [k])[2][k] for p in psis]
                # an empty state among them
                code = [ref.to_code(p, 4) for p in psis[:1]] + [{}] + [ref.to_code(p, 4) for p in psis[1:]]
                want = want[:1] + [np.zeros(len(W))] + want[1:]

                def judge(results, w):
                    for r in range(size) if par == "serial" else (0,):
                        for i, (a, b) in enumerate(zip(results[r], want)):
                            near(a, b, w + f" rank {r} call {i}")

                r = restr
                args = [(4, -0.3, code, op, W, 0.2, k, 0, r, mode, par)] * size
                mpicheck.every(size, "green", args, bound if par == "H_build" and (mode == "sparse" or bound > 1) else 0, res, judge, f"{case} {mode}/{par} krylov {k} psi {psis} restrictions {restr}", seed)


def spectra(case, res):
    _, size, g, inter, bound, seed = case
    op = graph(g, inter)
    for restr in (None, {(0, 1): (0, 1)}):
        ini = [x for x in c17.initial(op, restr) if all(ref.allowed(m, restr) for m in x[1])]
        orc = c17.Oracle(op, restr, 0.2, W)
        lists = [([0], [0]), ([0, 1], [1, 8]), (list(range(len(ini))), [0, 2, 4]), ([2], [3, 1, 5, 6]), ([1, 0, 2], [7, 8, 3])]
        for si, ti in lists if not bound else [([0, 1], [1, 8])]:
            si = [i for i in si if i < len(ini)]
            for par in c17.MODES:

                def judge(results, w):
                    for r in range(size) if par != "H_build" else (0,):
                        need(np.shape(results[r]) == (len(si), len(ti), len(W)), w, "rank", r, "shape", np.shape(results[r]))
                        for a, i in enumerate(si):
                            for b, t in enumerate(ti):
                                near(results[r][a, b], orc((i, t), ini[i][0], ini[i][1], c17.TOPS[t], 5), w + f" rank {r} slot {a, b}")

                args = [(4, op, [c17.TOPS[t] for t in ti], [ref.to_code(ini[i][1], 4) for i in si], [ini[i][0] for i in si], W, 0.2, restr, 5, 0, par)] * size
                mpicheck.every(size, "spectra", args, bound, res, judge, f"{case} states {si} operators {ti} {par} restrictions {restr}", seed)


def rixs(case, res):
    _, size, g, mode, bound, seed = case
    op = c18.hamiltonian(g, 2)
    for restr in (None, {(2, 3, 4): (0, 2)}):
        ini = c18.initial(op, restr)
        orc = c18.Oracle(op, restr)
        lists = [([0, 1], [0, 1], [0, 2], 2), ([2], [4, 2], [1, 4], 1), ([3, 0], [3], [0, 1, 3], 3), (list(range(len(ini))), [1], [2], 4)]
        for si, ai, bi, nw in lists if not bound else [([0], [4, 1], [0], 2)]:
            wins = c18.WIN[:nw]

            def judge(results, w):
                for r in (0,) if mode == "H_build" else range(size):
                    gg = results[r]
                    need(np.shape(gg) == (len(si), len(ai), len(bi), nw, len(c18.WLOSS)), w, "rank", r, "shape", np.shape(gg))
                    need(np.all(np.isfinite(gg)), w, "rank", r, "not finite")
                    for x, i in enumerate(si):
                        for y, a in enumerate(ai):
                            for z, b in enumerate(bi):
                                for q, win in enumerate(wins):
                                    scale = sum(abs(v) ** 2 for v in orc.second(i, ini[i][0], ini[i][1], a, float(win)).values()) / c18.D2 + 1e-9
                                    want = orc(i, ini[i][0], ini[i][1], a, b, float(win))
                                    need(np.all(abs(gg[x, y, z, q] - want) < c18.TOL * scale), w, "rank", r, "slot", (x, y, z, q), "is", gg[x, y, z, q], "expected", want)

            args = [(5, op, [c18.TIN[a] for a in ai], [c18.TOUT[b] for b in bi], [ref.to_code(ini[i][1], 5) for i in si], [ini[i][0] for i in si], wins, c18.WLOSS, c18.D1, c18.D2, restr, 20, 1e-14, mode)] * size
            mpicheck.every(size, "rixs", args, bound, res, judge, f"{case} states {si} in {ai} out {bi} {nw} energies restrictions {restr}", seed, cap=None if bound < 2 else 3000)
