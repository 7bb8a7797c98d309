"""C14: thermal averages and printed expectation values.

Every list of up to 4 energies from a small alphabet (degenerate, split, far apart,
negative, unordered), every temperature from 1e-3 K to 1e6 K and several observable
shapes (scalar, vector, array) against a high-precision Boltzmann sum, including all
permutations, common shifts and mismatched lengths; the printed tables of
eigenstates and of thermal averages are captured and every number compared with the
exact expectation value at the printed precision for all pairs of chosen states,
several temperatures and energy cuts; the same tables of runs of the main functions at
several temperatures.
"""

import contextlib
import io
import itertools
import re
from fractions import Fraction  # noqa: F401

import numpy as np

from mc import ref
from mc.checks import c13
from mc.harness import Result, need

ID = "C14"
MEANING = "states: (energies, temperature) choices; transitions: numbers compared; traces: real calls or printed tables"
KB = 8.617333262e-5
ENERGIES = [0.0, 0.02, 0.5, -3.0, 7.0]
TEMPS = [1e-3, 1.0, 77, 300, 300.0, 1e4, 1e6]


def BOUNDS(tier):
    return dict(list_length=4 if tier == "quick" else 5, alphabet=ENERGIES, temperatures=TEMPS, long_lists="6, 21, 64 energies; tables of 11 and 24 states", tables="all pairs and triples of 6 states x 4 gaps x 3 temperatures")


def cases(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for k in range(1, top + 1):
        for first in range(len(ENERGIES)):
            out.append(["avg", k, first])
    out += [["long", k] for k in (6, 21, 64)]
    out.append(["bad"])
    for i in range(6):
        for j in range(6):
            if i != j:
                out.append(["table", i, j])
    out += [["table3", i] for i in range(6)]
    out += [["tablelong", k, a] for k in (11, 24) for a in (0, 2, 5)]
    # the tables of complete runs
    out += [["run", k, i] for k in ("cf", "op") for i in range(len(RUNS[k]))]
    return out


RUNS = {
    "cf": [dict(n0imps=(6, 9), nPsiMax=10, T=50), dict(n0imps=(6, 9), nPsiMax=10, T=3000), dict(n0imps=(6, 8), dnTols=(0, 1), dnValBaths=(0, 1), nPsiMax=4, T=900)],
    "op": [dict(n0imps=(6, 9), nPsiMax=10, T=40), dict(nBaths=(0, 2), nValBaths=(0, 2), n0imps=(6, 8), nPsiMax=8, T=4000), dict(nBaths=(0, 3), nValBaths=(0, 2), n0imps=(6, 7), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), nPsiMax=4, T=800)],
}


def boltzmann(es, T, kb):
    from mpmath import mp, mpf, exp

    mp.dps = 30
    m = min(es)
    w = [exp(-(mpf(e) - mpf(m)) / (mpf(kb) * mpf(T))) for e in es]
    z = sum(w)
    return np.array([float(x / z) for x in w])


def states():
    """Six states of the d shell with different expectation values (arrangement 2 of C13)."""
    r = np.sqrt(0.5)
    return [{0b0000000001: 1}, {0b0000100001: 1}, {0b1000000001: r, 0b0000010000 | 1 << 5: r * 1j}, {0b0011100111: 1}, {0b1111111110: 0.6, 0b1111101111: 0.8},
            {0b0000000011: 0.5, 0b0000000101: 0.5j, 0b0000110000: -0.5, 0b1000000010: 0.5}]


def exact(a, psi):
    """N, egdn, egup, t2gdn, t2gup, Lz, Sz, L2, S2"""
    nBaths, ix, d, extra, n = c13.setup(a)
    psi = {c13.embed(m, d, extra): v for m, v in psi.items()}
    out = {k: ref.apply(o, psi) for k, o in c13.operators(a).items()}
    inn = c13.inner
    n2 = lambda x: sum(abs(v) ** 2 for v in x.values())  # noqa: E731
    lab = [(2, s, m) for s in range(2) for m in range(-2, 3)]
    rem = [ref.apply({((ix[x], "a"),): 1}, psi) for x in lab]
    rho = np.array([[inn(y, x) for y in rem] for x in rem])
    u = np.kron(np.eye(2), __import__("mc.refham", fromlist=["x"]).cubic())
    c = np.diag(np.conj(u.T) @ rho @ u).real
    lz, sz = inn(psi, out["Lz"]).real, inn(psi, out["Sz"]).real
    return np.array([np.trace(rho).real, c[0] + c[1], c[5] + c[6], c[2:5].sum(), c[7:10].sum(), lz, sz, n2(out["Lz"]) + lz + n2(out["L+"]), n2(out["Sz"]) + sz + n2(out["S+"])])


NUM = r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?"


def tables(a, sel, es, T, cut, res):
    from impurityModel.ed import finite

    nBaths, ix, d, extra, n = c13.setup(a)
    st = states()
    psis = [ref.to_code({c13.embed(m, d, extra): v for m, v in st[i].items()}, n) for i in sel]
    want = np.array([exact(a, st[i]) for i in sel])
    es = np.array(es)
    where = f"states {sel}, energies {list(es)}, T={T}, cut={cut}"

    def cap(f, *args, **kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            f(*args, **kw)
        return buf.getvalue()

    for nshow in (None, 1):
        txt = cap(finite.printExpValues, nBaths, es, psis, **({} if nshow is None else {"n": nshow}))
        m = re.search(r"E0\s*=\s*(%s)" % NUM, txt)
        need(m and abs(float(m.group(1)) - es[0]) <= 0.6e-4, where, "printed ground state energy", txt[:40])
        rows = [[float(x) for x in re.findall(NUM, l)] for l in txt.splitlines() if re.fullmatch(r"\s*\d+\s+.*\d\s*", l) and "E0" not in l]
        need(len(rows) == (len(sel) if nshow is None else 1), where, "printed table has", len(rows), "rows:", txt)
        for i, r in enumerate(rows):
            need(len(r) == 11, where, "row", i, "has", len(r), "columns:", r)
            expect = [i, es[i] - es[0]] + list(want[i])
            prec = [0, 1e-3, 1e-2, 1e-3, 1e-3, 1e-3, 1e-3, 1e-2, 1e-2, 1e-2, 1e-2]
            for k in range(11):
                need(abs(r[k] - expect[k]) <= 0.51 * prec[k] + 1e-9, where, "row", i, "column", k, "shows", r[k], "expected", expect[k])
                res.transitions += 1
        res.traces += 1
    kw = {} if T is None else {"T": T}
    if cut is not None:
        kw["cutOff"] = cut
    txt = cap(finite.printThermalExpValues, nBaths, es, psis, **kw)
    t, c = 300 if T is None else T, 10 if cut is None else cut
    keep = [i for i in range(len(es)) if es[i] - es[0] < c * KB * t]
    w = boltzmann([es[i] for i in keep], t, KB)
    got = dict((k, float(v)) for k, v in re.findall(r"<(.+?)>\s*=\s*(%s)" % NUM, txt))
    names = ["N(3d)", "N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)", "Lz(3d)", "Sz(3d)", "L^2(3d)", "S^2(3d)"]
    need(set(got) == set(names) | {"E-E0"}, where, "thermal table has entries", sorted(got))
    need(abs(got["E-E0"] - sum(x * (es[i] - es[0]) for x, i in zip(w, keep))) <= 0.6e-3, where, "thermal <E-E0> shows", got["E-E0"])
    for k, name in enumerate(names):
        e = sum(x * want[i, k] for x, i in zip(w, keep))
        need(abs(got[name] - e) <= 0.6e-3, where, "thermal", name, "shows", got[name], "expected", e)
        res.transitions += 1
    res.traces += 1
    res.states += 1


def run(case):
    from impurityModel.ed.average import k_B, thermal_average

    res = Result()
    if case[0] == "avg":
        need(abs(k_B - KB) < 1e-9, "Boltzmann constant", k_B)
        _, k, first = case
        for rest in itertools.product(range(len(ENERGIES)), repeat=k - 1):
            es = [ENERGIES[i] for i in (first,) + rest]
            scalar = [1.5 * i - 0.25 * i * i + 1 for i in range(k)]
            vec = [[i + 1.0, (-1.0) ** i, 0.5 * i] for i in range(k)]
            arr = np.array([[[i, 1.0 + i], [2.0 * i, -i]] for i in range(k)])
            ints = np.array([[3 - i, i * i] for i in range(k)])
            cplx = [[x + 2j * i, -1j * x] for i, x in enumerate(scalar)]
            for T in TEMPS:
                w = boltzmann(es, T, KB)
                for shift in (0, -250.0, 1e3):
                    e = np.array(es) + shift
                    for kind, (o, a) in enumerate(((scalar, scalar), (np.array(vec), vec), (arr, arr), (ints, ints), (np.array(cplx), cplx), ([np.array(x) for x in vec], vec))):
                        for ee in (e, list(e), tuple(e)) if shift == 0 else (e,):
                            e0, o0 = np.array(ee, copy=True), np.array(o, copy=True)
                            g = thermal_average(ee, o, T=T)
                            want = np.tensordot(w, np.array(a), axes=(0, 0))
                            need(np.shape(g) == np.shape(want), "shape of the average", np.shape(g))
                            # a shifted sum carries the rounding of the energies
                            tol = 1e-6 + 20 * abs(shift) * 2.3e-16 / (KB * T)
                            need(np.all(np.isfinite(g)) and np.all(abs(g - want) <= tol), "thermal_average", list(ee), "observable", kind, "T =", T, "is", g, "expected", want)
                            need(np.array_equal(e0, ee) and np.array_equal(o0, o), "arguments modified")
                            res.transitions += np.size(want)
                            res.traces += 1
                g = thermal_average(es, scalar, T=T)
                if k <= 3:
                    for p in itertools.permutations(range(k)):
                        g2 = thermal_average([es[i] for i in p], [scalar[i] for i in p], T=T)
                        need(abs(g - g2) < 1e-10, "thermal average depends on the order", es, p, T)
                if T == 300:
                    need(abs(thermal_average(es, scalar) - g) < 1e-12, "default temperature is not 300 K")
                res.states += 1
        res.outcomes = {"average"}
    elif case[0] == "long":
        k = case[1]
        shape = (2, 3, 2, 2)
        o = np.array([np.arange(24.0).reshape(shape) * (-1) ** i + i for i in range(k)])
        for gap in (0.0, 1e-4, 0.01, 0.3):
            for order in (range(k), range(k)[::-1], [(5 * i) % k for i in range(k)] if k % 5 else range(k)):
                es = [-3 + gap * (i // 2) for i in order]
                for T in TEMPS:
                    w = boltzmann(es, T, KB)
                    for obs in (o, o[:, 0, 0], o[:, 0, 0, 0], o[:, 0, 0, 0, 0], [float(x) for x in o[:, 1, 1, 1, 1]]):
                        g, want = thermal_average(es, obs, T=T), np.tensordot(w, np.array(obs), axes=(0, 0))
                        need(np.shape(g) == np.shape(want) and np.all(abs(g - want) <= 1e-5), "thermal_average of", k, "energies, gap", gap, "T =", T, "is", g, "expected", want)
                        res.transitions += np.size(want)
                        res.traces += 1
                    res.states += 1
        res.outcomes = {"average"}
    elif case[0] == "tablelong":
        _, k, a = case
        for gap, T, cut in ((0.004, None, None), (0.03, 900.0, None), (0.0, 50, 3), (0.011, 300, 4)):
            tables(a, [(i * i + 2 * i) % 6 for i in range(k)], [-7.5 + gap * i for i in range(k)], T, cut, res)
        res.outcomes = {"tables"}
    elif case[0] == "run":
        from mc.checks import c25, c30

        par = dict(c25.BASE, **RUNS[case[1]][case[2]])
        with c25.scratch():
            text, _, _, es, psis = c30.observe(lambda: c25.start(case[1], par, {} if case[1] == "cf" else case[2]))[:5]
        c30.tables(text, es, psis, dict(zip(par["ls"], par["nBaths"])), par["T"], f"run {RUNS[case[1]][case[2]]}:", res)
        res.states += 1
        res.traces += 1
        res.outcomes = {"report"}
    elif case[0] == "bad":
        for ne, no in itertools.product(range(1, 5), repeat=2):
            if ne != no:
                for o in ([1.0] * no, np.ones((no, 3)), np.ones((no, ne))):
                    try:
                        g = thermal_average([0.1 * i for i in range(ne)], o)
                    except Exception:
                        pass
                    else:
                        need(False, "thermal_average accepts", ne, "energies and", no, "observables:", g)
                    res.transitions += 1
                    res.traces += 1
                    res.states += 1
        res.outcomes = {"refused"}
    elif case[0] == "table":
        _, i, j = case
        for gap in (0.0, 0.01, 0.03, 0.3, 1.5):
            for T in (None, 50, 1000.0, 5000):
                for cut in (None, 3):
                    if abs(gap - (10 if cut is None else cut) * KB * (300 if T is None else T)) > 1e-4:
                        tables((i + j) % len(c13.ARR), [i, j], [-5.25, -5.25 + gap], T, cut, res)
        tables(2, [i], [3.5], None, None, res)
        res.outcomes = {"tables"}
    else:
        i = case[1]
        o = [k for k in range(6) if k != i]
        for j, k in itertools.permutations(o, 2):
            tables(1, [i, j, k], [-1.0, -0.99, -0.97], 200.0, None, res)
            tables(3, [i, j, k], [2.0, 2.02, 2.9], None, None, res)
        res.outcomes = {"tables"}
    return res
