"""C30: the printed report of a run.

The run scripts' main functions are executed for a grid of fillings, baths, numbers of
eigenstates, temperatures, energy cuts and printing parameters, on one and on several virtual ranks, up
to and including everything that is printed before the spectra (whose calculation is replaced by a
recorder). The captured text is parsed: numbers of spin-orbitals, processes, basis states, eigenstates
and product states, energies, all expectation values (single and thermal), the highest weights with
their product states and every element of the density matrix above the tolerance, in the order its label says, must equal
exact values calculated from the eigenstates; the recorder must get just the eigenstates announced.
"""

import ast
import contextlib
import copy
import io
import os
import re
import sys
from collections import OrderedDict

import numpy as np

from mc import ref, refham, runref
from mc.checks import c25
from mc.checks.c25 import BASE, scratch
from mc.env import REPO
from mc.harness import Result, need

ID = "C30"
MEANING = "states: reports; transitions: printed numbers compared; traces: executions of main"
ASSUMPTIONS = ["the printed tables keep the documented column order; text between the numbers may change"]
TIMEOUT = 600
CHUNK = 1
NUM = r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?"
CPX = r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?(?:[-+]\d+(?:\.\d*)?(?:[eE][-+]?\d+)?j)?"


def grid(tier):
    out = []
    # every filling of the shell, several numbers of states
    for n in range(11):
        out.append(["op", dict(nBaths=(0, 2), nValBaths=(0, 2), n0imps=(6, n), nPsiMax=min(6, [1, 10, 45, 120][min(n, 10 - n, 3)]), T=[300, 1000, 50][n % 3]), n])
        out.append(["cf", dict(n0imps=(6, n), nPsiMax=min(3 + n % 4, [1, 10, 45][min(n, 10 - n, 2)]), T=[3000, 300][n % 2], tolPrintOccupation=[0.05, 0.5, 0.3][n % 3]), {}])
    # hybridised states, superpositions of many product states
    for k in range(4):
        out.append(["op", dict(nBaths=(0, 3), nValBaths=(0, 2), n0imps=(6, 8 - k), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), nPsiMax=4, tolPrintOccupation=[0.02, 0.2, 0.7, 1.2][k], nPrintSlaterWeights=[0, 1, 7, 1000][k]), k])
        out.append(["cf", dict(n0imps=(6, 9 - k % 2), dnTols=(0, 1), dnValBaths=(0, 1), nPsiMax=[1, 2, 5, 9][k], tolPrintOccupation=[0.9, 0.1, 0.01, 0.5][k], nPrintSlaterWeights=[2, 12, 0, 5][k], T=[20, 300, 900, 5000][k]), c25.CF2 if k % 2 else {}])
    # ground states of positive energy
    for n, m in ((1, 10), (9, 4), (10, 1)):
        out.append(["cf", dict(n0imps=(6, n), nPsiMax=m, T=300 * n), dict(e_imp=90.0)])
        out.append(["op", dict(nBaths=(0, 1), nValBaths=(0, 1), n0imps=(6, n), dnTols=(0, 1 if n < 9 else 0), dnValBaths=(0, 1), nPsiMax=m, T=300 * n), 100 + m])
    # p-shell baths, more electrons
    out.append(["op", dict(nBaths=(1, 2), nValBaths=(1, 1), n0imps=(6, 3), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 0), nPsiMax=5, nPrintSlaterWeights=4), 1])
    out.append(["cf", dict(nBaths=(0, 20), nValBaths=(0, 10), n0imps=(6, 9), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), nPsiMax=3, nPrintSlaterWeights=4), {}])
    # temperature x energy cut x number of states x printing
    for T in (1, 300, 4000):
        for cut in (1.5, 10, 60):
            for n in (1, 2, 10) if tier == "thorough" else (2, 10):
                out.append(["cf", dict(n0imps=(6, 9), nPsiMax=n, T=T, energy_cut=cut), {}])
    for w in range(0, 6 if tier == "thorough" else 3):
        for tol in (0.0005, 0.3, 0.999):
            out.append(["op", dict(nBaths=(0, 1), nValBaths=(0, 1), n0imps=(6, 8), dnTols=(0, 1), dnValBaths=(0, 1), nPsiMax=3, nPrintSlaterWeights=w, tolPrintOccupation=tol), w])
    if tier == "thorough":
        for n in range(4, 9):
            out.append(["cf", dict(n0imps=(6, n), dnTols=(0, 1), dnValBaths=(0, 1), nPsiMax=8, T=2000, tolPrintOccupation=0.03, nPrintSlaterWeights=10), {}])
    return out


def BOUNDS(tier):
    return dict(reports=len(grid(tier)), ranks="1..3", fillings="0..10")


def cases(tier):
    out = grid(tier)
    out += [["shipped", "run_Ni_NiO_CF.sh", None], ["shipped", "run_Co_CoO_CF.sh", None], ["shipped", "run_Ni_NiO_Xbath.sh", 10], ["shipped", "run_Ni_NiO_Xbath.sh", 20], ["shipped", "run_Ni_NiO_Xbath.sh", 50]]
    if tier == "thorough":
        out += [["shipped", "run_Fe_FeO_CF.sh", None], ["shipped", "run_Mn_MnO_CF.sh", None]]
    # an energy cut just above and just below a level
    out += [["gap", i, eps] for i in range(len(GAPS)) for eps in (3e-4, -3e-4, 4e-5, -4e-5)]
    out += [["ranks", r, i] for r in (2, 3) for i in range(len(RANKED) if tier == "thorough" else 3)]
    return out


GAPS = [["cf", dict(n0imps=(6, 9), nPsiMax=10, T=300), {}, 3], ["op", dict(nBaths=(0, 2), nValBaths=(0, 2), n0imps=(6, 8), nPsiMax=8, T=1000), 3, 1]]
RANKED = [
    ["cf", dict(n0imps=(6, 9), nPsiMax=5), {}],
    ["op", dict(nBaths=(0, 2), nValBaths=(0, 2), n0imps=(6, 8), dnTols=(0, 1), dnValBaths=(0, 1), nPsiMax=3, T=2000), 1],
    ["cf", dict(n0imps=(6, 8), nPsiMax=3, T=1500, tolPrintOccupation=0.1), c25.CF2],
    ["op", dict(nBaths=(1, 1), nValBaths=(1, 1), n0imps=(6, 10), nPsiMax=1), 2],
    ["cf", dict(n0imps=(6, 0), nPsiMax=1), {}],
    ["op", dict(nBaths=(0, 3), nValBaths=(0, 2), n0imps=(6, 8), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), nPsiMax=4), 3],
]


def everywhere(real, new):
    places = [(m, k) for n, m in list(sys.modules.items()) if n.startswith("impurityModel") and m for k, v in list(vars(m).items()) if v is real]
    for m, k in places:
        setattr(m, k, new)
    return lambda: [setattr(m, k, real) for m, k in places]


def observe(fn):
    """Run fn (a call of main) with the spectra replaced by a recorder; returns (text, hOp, basis, es, psis, es kept, psis kept)."""
    from impurityModel.ed import finite, get_spectra, get_spectra_using_CF, spectra  # noqa: F401

    seen, kept = [], []
    real = finite.eigensystem

    def eigen(*a, **k):
        es, psis = real(*a, **k)
        seen.append((dict(a[1]) if len(a) > 1 else dict(k["hOp"]), list(a[2]) if len(a) > 2 else list(k["basis"]), [float(e) for e in es], copy.deepcopy([dict(p) for p in psis])))
        return es, psis

    def stop(*a, **k):
        es, psis = (list(a) + [None, None])[:2]
        es, psis = k.get("es", es), k.get("psis", psis)
        kept.append(([float(e) for e in es], [dict(p) for p in psis]))
        for x in list(a) + list(k.values()):
            if hasattr(x, "create_dataset"):
                x.close()

    undo = [everywhere(real, eigen), everywhere(spectra.simulate_spectra, stop)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            fn()
    finally:
        for u in undo:
            u()
    need(len(seen) == 1 and len(kept) == 1, "main diagonalises", len(seen), "times and simulates", len(kept), "times")
    return (out.getvalue(), *seen[0], *kept[0])


# ---- exact values


class Exact:
    """Expectation values of one state, from the definition."""

    def __init__(self, nBaths, psi):
        from impurityModel.ed.finite import get_spherical_2_cubic_matrix

        ix = refham.pos(nBaths)
        n = len(ix)
        psi = ref.from_code(psi, n)
        ms = range(-2, 3)
        one = lambda x, y: ((ix[x], "c"), (ix[y], "a"))  # noqa: E731
        lp = ref.apply({one((2, s, m + 1), (2, s, m)): np.sqrt(6 - m * (m + 1)) for s in range(2) for m in range(-2, 2)}, psi)
        sp = ref.apply({one((2, 1, m), (2, 0, m)): 1.0 for m in ms}, psi)
        lab = [(2, s, m) for s in range(2) for m in ms]
        rem = [ref.apply({((ix[x], "a"),): 1}, psi) for x in lab]
        inner = lambda x, y: sum(np.conj(v) * y[k] for k, v in x.items() if k in y)  # noqa: E731
        n2 = lambda x: sum(abs(v) ** 2 for v in x.values())  # noqa: E731
        rho = np.array([[inner(y, x) for y in rem] for x in rem])  # <c_y^+ c_x>
        lz = ref.apply({one((2, s, m), (2, s, m)): m for s in range(2) for m in ms}, psi)
        sz = ref.apply({one((2, s, m), (2, s, m)): s - 0.5 for s in range(2) for m in ms}, psi)
        u = refham.cubic()
        d = np.diag(np.kron(np.eye(2), u).conj().T @ rho @ np.kron(np.eye(2), u)).real
        elz, esz = inner(psi, lz).real, inner(psi, sz).real
        self.values = [np.trace(rho).real, d[0] + d[1], d[5] + d[6], d[2:5].sum(), d[7:10].sum(), elz, esz, n2(lz) + elz + n2(lp), n2(sz) + esz + n2(sp)]
        v = np.kron(np.eye(2), np.asarray(get_spherical_2_cubic_matrix()))
        self.rho = v.conj().T @ rho @ v


NAMES = ["N(3d)", "N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)", "Lz(3d)", "Sz(3d)", "L^2(3d)", "S^2(3d)"]


def one_number(pattern, text, where):
    m = re.findall(pattern, text)
    need(len(m) == 1, where, "has", len(m), "lines like", pattern)
    return m[0]


def tables(text, es, psis, nBaths, T, where, res):
    """The thermal averages and the table of the eigenstates; returns the exact values and relative energies."""

    def num(name, shown, want, prec):
        need(abs(shown - want) <= 0.51 * prec + 1e-9, where, name, "shows", shown, "expected", want)
        res.transitions += 1

    x = [Exact(nBaths, p) for p in psis]
    rel = [e - es[0] for e in es]
    # thermal averages over the states within ten k_B T
    ok = [i for i in range(len(es)) if rel[i] < 10 * runref.KB * T]
    w = np.exp(-np.array([rel[i] for i in ok]) / (runref.KB * T))
    w /= w.sum()
    got_t = dict((k, float(v)) for k, v in re.findall(r"<(\S+?)>\s*=\s*(%s)" % NUM, text))
    num("<E-E0>", got_t.get("E-E0", np.nan), w @ [rel[i] for i in ok], 1e-3)
    for k, name in enumerate(NAMES):
        need(name in got_t, where, "lacks the thermal average of", name)
        num("<%s>" % name, got_t[name], w @ [x[i].values[k] for i in ok], 1e-3)
    # table of eigenstates
    num("E0", float(one_number(r"\bE0\s*=\s*(%s)" % NUM, text, where)), es[0], 1e-4)
    rows = [[float(v) for v in r.split()] for r in text.splitlines() if re.fullmatch(r"\s*\d+(\s+%s){10}\s*" % NUM, r)]
    need(len(rows) == len(es), where, "table has", len(rows), "rows for", len(es), "eigenstates")
    prec = [0, 1e-3, 1e-2, 1e-3, 1e-3, 1e-3, 1e-3, 1e-2, 1e-2, 1e-2, 1e-2]
    for i, r in enumerate(rows):
        for k, want in enumerate([i, rel[i]] + x[i].values):
            num(f"table row {i} column {k}", r[k], want, prec[k])
    return x, rel


def judge(got, par, kind, where, res):
    text, op, basis, es, psis, kes, kpsis = got
    nBaths = OrderedDict(zip(par["ls"], par["nBaths"]))
    n = 16 + sum(par["nBaths"])
    T = par["T"]

    def num(name, shown, want, prec):
        need(abs(shown - want) <= 0.51 * prec + 1e-9, where, name, "shows", shown, "expected", want)
        res.transitions += 1

    num("number of spin-orbitals", int(one_number(r"#\s*spin-orbitals\D*(\d+)", text, where)), n, 0)
    num("number of processes", int(one_number(r"(\d+) processes in the Hamiltonian", text, where)), len(op), 0)
    num("number of basis states", int(one_number(r"#\s*basis states\D*(\d+)", text, where)), len(basis), 0)
    need(len(es) == len(psis) == min(par["nPsiMax"], len(basis)), where, "finds", len(es), "eigenstates")
    x, rel = tables(text, es, psis, nBaths, T, where, res)
    # product states
    parts = re.split(r"Density matrix", text)
    need(len(parts) == 2, where, "has", len(parts) - 1, "density matrix sections")
    head = parts[0][parts[0].index("Slater determinants") :] if "Slater determinants" in parts[0] else ""
    blocks = re.split(r"Eigenstate (\d+)", head)[1:]
    need([int(b) for b in blocks[::2]] == list(range(len(es))), where, "lists the product states of the eigenstates", blocks[::2])
    for i, b in enumerate(blocks[1::2]):
        wi = f"{where} eigenstate {i}:"
        num(f"eigenstate {i}: number of product states", int(one_number(r"Consists of (\d+) product states", b, wi)), len(psis[i]), 0)
        show = min(par["nPrintSlaterWeights"], len(psis[i]))
        after = b.split("weights", 1)
        if par["nPrintSlaterWeights"] == 0:
            need(not re.search(r"b['\"]", b), wi, "product states are printed although none are wanted")
            continue
        lits = [ast.literal_eval(v) for v in re.findall(r"b'(?:[^'\\]|\\.)*'|b\"(?:[^\"\\]|\\.)*\"", b)]
        before = re.split(r"b['\"]", after[1])[0]
        ws = [float(v) for v in re.findall(NUM, before)]
        need(len(lits) == show and len(ws) == show, wi, "shows", len(ws), "weights and", len(lits), "product states instead of", show)
        best = sorted((abs(a) ** 2 for a in psis[i].values()), reverse=True)
        full = {k: abs(a) ** 2 for k, a in psis[i].items()}
        need(len(full) == len(psis[i]), wi, "product states are not distinct")
        need(len(set(lits)) == len(lits), wi, "shows a product state twice:", lits)
        for j in range(show):
            # numpy prints eight digits of the largest number
            tol = 2e-8 + 2e-7 * best[j]
            need(abs(ws[j] - best[j]) <= tol, wi, "weight", j, "shows", ws[j], "expected", best[j])
            key = lits[j]
            need(key in full, wi, "product state", lits[j], "is not part of the eigenstate")
            need(abs(full[key] - ws[j]) <= tol, wi, "product state", lits[j], "has the weight", full[key], "and not", ws[j])
            res.transitions += 2
    # density matrices
    blocks = re.split(r"Eigenstate (\d+)", parts[1])[1:]
    need([int(b) for b in blocks[::2]] == list(range(len(es))), where, "lists the density matrices of the eigenstates", blocks[::2])
    tol = par["tolPrintOccupation"]
    for i, b in enumerate(blocks[1::2]):
        wi = f"{where} density matrix of eigenstate {i}:"
        found = {}
        for l1, l2, a, c, v in re.findall(r"Diagonal: \((\w+), *(\w+)\) *= *\((\d+), *(\d+)\)\D*?(%s)\s*$" % CPX, b, re.M):
            q = {l1[0]: int(a), l2[0]: int(c)}
            need(set(q) == {"s", "i"}, wi, "label", l1, l2)
            found[(q["s"], q["i"]), (q["s"], q["i"])] = complex(v)
        for l1, l2, l3, l4, a, c, e, f, v in re.findall(r"Off-diagonal: \((\w+), *(\w+)\), *\((\w+), *(\w+)\) *= *\(\((\d+), *(\d+)\), *\((\d+), *(\d+)\)\)\s*,\s*(%s)\s*$" % CPX, b, re.M):
            q = dict(zip((l1, l2, l3, l4), map(int, (a, c, e, f))))
            need(set(q) == {"si", "i", "sj", "j"}, wi, "label", l1, l2, l3, l4)
            found[(q["si"], q["i"]), (q["sj"], q["j"])] = complex(v)
        lines = len(re.findall(r"[Dd]iagonal:", b))
        need(lines == len(found), wi, "has", lines, "elements,", len(found), "different")
        r = x[i].rho
        for s in range(2):
            for a in range(5):
                for t in range(2):
                    for c in range(5):
                        v = r[5 * s + a, 5 * t + c]
                        k = (s, a), (t, c)
                        if k in found:
                            need(abs(v) > tol - 1e-9, wi, k, "is shown although it is", v)
                            num(f"eigenstate {i}: density matrix {k} real part", found[k].real, v.real, 1e-2)
                            num(f"eigenstate {i}: density matrix {k} imaginary part", found[k].imag, v.imag, 1e-2)
                        else:
                            need(abs(v) < tol + 1e-9, wi, k, "is not shown although it is", v)
    # states for the spectra
    cut = par["energy_cut"] * runref.KB * T
    need(all(abs(v - cut) > 1e-7 for v in rel), "bad case: level at the energy cut")
    nk = sum(v < cut for v in rel)
    num("number of considered eigenstates", int(one_number(r"Consider (\d+) eigenstates", text, where)), nk, 0)
    need(kes == es[:nk] and kpsis == psis[:nk], where, "passes", len(kes), "eigenstates on, expected the lowest", nk)
    res.states += 1
    res.traces += 1
    res.outcomes.add(f"{kind} {len(es)} states, {nk} considered")


def reference(text, where, res):
    """The report of the 50 bath run against the one committed in the repository."""
    with open(os.path.join(REPO, "impurityModel/test/referenceOutput/Ni_NiO_50bath/output.txt")) as f:
        want = f.read()

    def numbers(t):
        t = t[t.index("#spin-orbitals") : t.index("Density matrix")]
        t = re.sub(r"time\(.*", "", t)
        keys = re.findall(r"<(\S+?)>\s*=\s*(%s)" % NUM, t)
        rows = [[float(v) for v in r.split()] for r in t.splitlines() if re.fullmatch(r"\s*\d+(\s+%s){10}\s*" % NUM, r)]
        heads = [float(one_number(p, t, where)) for p in (r"#\s*spin-orbitals\D*(\d+)", r"(\d+) processes in the Hamiltonian", r"#\s*basis states\D*(\d+)", r"\bE0\s*=\s*(%s)" % NUM)]
        return {k: float(v) for k, v in keys}, rows, heads

    a, b = numbers(text), numbers(want)
    for x, y, name in zip(a[2], b[2], ("spin-orbitals", "processes", "basis states", "E0")):
        need(abs(x - y) < 1.1e-4, where, name, "is", x, "and in the committed reference output", y)
    for k in NAMES + ["E-E0"]:
        need(abs(a[0].get(k, np.nan) - b[0][k]) < 2.1e-3, where, k, "is", a[0].get(k), "and in the committed reference output", b[0][k])
    need(len(a[1]) == len(b[1]), where, "table has", len(a[1]), "rows")
    for x, y in zip(a[1], b[1]):
        # the two highest states are degenerate: only what is common to them
        cols = range(11) if y[1] < 0.5 else (0, 1, 2, 9, 10)
        need(all(abs(x[i] - y[i]) < 1.1e-2 for i in cols), where, "row", x, "is in the committed reference output", y)
        res.transitions += 11


def run(case):
    res = Result()
    if case[0] == "shipped":
        import importlib

        from mc.checks import c29

        where = f"{case[1]} {'' if case[2] is None else case[2]}:"
        module, par = c29.program(case[1], case[2], where)
        with scratch():
            got = observe(lambda: importlib.import_module(module).main(**par))
        judge(got, par, "shipped", where, res)
        if case[2] == 50:
            reference(got[0], where, res)
        return res
    if case[0] == "ranks":
        from mc import mpicheck

        kind, change, extra = RANKED[case[2]]
        par = dict(BASE, **change)
        with scratch() as d:

            def judge_all(results, w):
                judge(results[0][:7], par, kind, w + " rank 0", res)
                for r, got in enumerate(results[1:], 1):
                    need(not re.search(r"<\S+>\s*=|E0\s*=|Density matrix|Consists of|Consider|Diagonal", got[0]), w, "rank", r, "prints the report as well")
                    need(set(results[0][7]) - set(got[7]) >= {"data.npz", "spectra.h5"}, w, "rank", r, "writes files:", got[7], "rank 0:", results[0][7])
                    need(len(got[3]) == len(results[0][3]) and np.allclose(got[3], results[0][3], atol=1e-8) and len(got[5]) == len(results[0][5]), w, "rank", r, "continues with other eigenstates")

            mpicheck.every(case[1], "report", [(d, kind, par, extra)] * case[1], 0, res, judge_all, f"main {kind} {change}", modes=("eager",))
        return res
    if case[0] == "gap":
        kind, change, extra, i = GAPS[case[1]]
        with scratch():
            got = observe(lambda: c25.start(kind, dict(BASE, **change, energy_cut=1), extra))
        rel = [e - got[3][0] for e in got[3]]
        need(len(rel) > 1 and max(rel) > 1e-3, "harness: no excited state in this case", rel)
        # the first level that is not degenerate with the ground state, or the next one
        level = sorted({round(r, 7) for r in rel if r > 1e-3})[0 if i == 1 else -1]
        case = [kind, dict(change, energy_cut=float((level + case[2]) / (runref.KB * change["T"]))), extra]
    kind, change, extra = case
    par = dict(BASE)
    par.update({k: tuple(v) if isinstance(v, list) else v for k, v in change.items()})
    where = f"run {kind} {change} {extra}:"
    with scratch():
        got = observe(lambda: c25.start(kind, par, extra))
    judge(got, par, kind, where, res)
    return res


def worker_exit():
    from mc import mpicheck

    mpicheck.close()
