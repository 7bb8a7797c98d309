"""C12: assembled Hamiltonian.

Every unit parameter (each Slater integral, spin-orbit strength, field component,
charge-transfer correction, nominal occupation) and generic combinations through
both assembly functions, compared process by process (canonical two-body form,
one-body matrix) with the sum of exact terms and the given stored operator or
crystal-field part; every crystal-field parameter present, absent, or unit, for valence and
valence+conduction baths and both bath bases, compared through what is observable
(impurity block, hybridisation function, bath spectra) and, over a grid of awkward
floating point values, exact hermiticity.
"""

import itertools
import json
import os
import pickle
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

from mc import refham, wigner
from mc.harness import Result, need

ID = "C12"
MEANING = "states: parameter choices; transitions: matrix elements compared; traces: Hamiltonians assembled by the real code"
ZERO = dict(Fdd=[0] * 5, Fpp=[0] * 3, Fpd=[0] * 3, Gpd=[0] * 4, xi_2p=0, xi_3d=0, n3d=0, c=0, hField=[0, 0, 0])
GENERIC = dict(Fdd=[7.5, 0, 9.9, 0, 6.6], Fpp=[1.0, 0, 0.7], Fpd=[8.9, 0, 6.8], Gpd=[0, 5.0, 0, 2.8], xi_2p=11.629, xi_3d=0.096, n3d=8, c=1.5, hField=[0.01, -0.2, 0.0001])
CF = list(refham.CF_DEFAULT)
AWKWARD = [0.1, -1.31796, 0.60422, 1 / 3, 7.7, -2.0, 1e-5]


def BOUNDS(tier):
    return dict(unit_parameters="all", cf="each of 10 parameters: unit, absent; all pairs absent (thorough: all 1024 subsets of present ones)", hermiticity_grid="7^2 awkward value pairs x all parameter roles",
                arrangements=["{1:0,2:10}", "{1:0,2:20}", "{1:2,2:10}", "{1:0,2:0} (stored)"])


def units():
    out = []
    for k, n in (("Fdd", 5), ("Fpp", 3), ("Fpd", 3), ("Gpd", 4), ("hField", 3)):
        out += [[k, i] for i in range(n)]
    return out + [["xi_2p", None], ["xi_3d", None], ["c", None]] + [["n3d", i] for i in range(11)]


def cases(tier):
    out = [["unit", u, s] for u in units() for s in ("stored", "cf")]
    out += [["generic", s, n] for s in ("stored", "cf") for n in range(11)]
    out += [["stored", i] for i in range(6)]
    present = [[]] + [[c] for c in CF] + [[c for c in CF if c != x] for x in CF] + [CF] + [[x for x in CF if "val" in x], [x for x in CF if "con" in x]]
    if tier == "thorough":
        present += [list(x) for k in range(2, 9) for x in itertools.combinations(CF, k)]
    else:
        present += [list(x) for x in itertools.combinations(CF, 2)]
    out += [["cf", p, nb, b] for p in present for nb in (10, 20) for b in ("spherical", "cubic", "default")]
    out += [["herm", i] for i in range(len(AWKWARD))]
    out += [["baths", i] for i in range(2)]
    out += [["small", s, nb, b] for s in (0, 1, 2) for nb in (10, 20) for b in ("spherical", "cubic")]
    out.append(["badbasis"])
    return out


class Files:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_c12_")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def pickle(self, op):
        f = os.path.join(self.dir, "h0.pickle")
        with open(f, "wb") as h:
            pickle.dump(op, h)
        return f

    def json(self, par):
        f = os.path.join(self.dir, "h0.json")
        with open(f, "w") as h:
            json.dump(par, h)
        return f


H0 = [
    {},
    {(((2, 0, 1), "c"), ((2, 0, 1), "a")): -1.25, (((1, 1, 0), "c"), ((1, 1, 0), "a")): -0.5},
    {(((2, 0, -2), "c"), ((2, 1, 2), "a")): 0.5 - 0.25j, (((2, 1, 2), "c"), ((2, 0, -2), "a")): 0.5 + 0.25j},
    {(((2, 3), "c"), ((2, 1, 0), "a")): 1.5j, (((2, 1, 0), "c"), ((2, 3), "a")): -1.5j, (((2, 9), "c"), ((2, 9), "a")): -4},
    {(((1, 0, -1), "c"), ((2, 0, 2), "a")): 0.125, (((2, 0, 2), "c"), ((1, 0, -1), "a")): 0.125, (((2, 0), "c"), ((2, 1), "a")): 2.0, (((2, 1), "c"), ((2, 0), "a")): 2.0},
    {(((2, 0, 1), "c"), ((2, 0, 1), "a")): 1, (((2, 0, 1), "c"), ((2, 0, 0), "a")): -3, (((2, 0, 0), "c"), ((2, 0, 1), "a")): -3},
]


def arrange(nb2, nb1=0):
    nBaths = OrderedDict([(1, nb1), (2, nb2)])
    return nBaths, OrderedDict([(1, 0), (2, min(nb2, 10))])


def build(kind, files, p, nBaths, nVal, h0):
    n0 = OrderedDict([(1, 6), (2, p["n3d"])])
    args = [nBaths, nVal, [list(p["Fdd"]), list(p["Fpp"]), list(p["Fpd"]), list(p["Gpd"])], [p["xi_2p"], p["xi_3d"]], [n0, p["c"]], list(p["hField"])]
    if kind == "stored":
        from impurityModel.ed import get_spectra

        return get_spectra.get_hamiltonian_operator(*args, files.pickle(h0))
    from impurityModel.ed import get_spectra_using_CF as g

    return g.get_hamiltonian_operator_using_CF(*args, files.json(h0))


def compare(op, p, h0_one, nBaths, where, res):
    from impurityModel.ed.finite import daggerOp

    ix = refham.pos(nBaths)
    two, one = refham.impurity(*[p[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd", "xi_2p", "xi_3d", "n3d", "c", "hField")])
    g1, g2, ok = refham.split(op)
    need(ok, where, "has processes that are neither one- nor two-body")
    idx = {i: i for i in range(len(ix))}
    m1 = refham.one_matrix(g1, idx)
    want1 = refham.one_matrix(one, ix) + h0_one
    bad = np.argwhere(abs(m1 - want1) > 1e-9)
    lab = list(ix)
    if len(bad):
        i, j = bad[0]
        need(False, where, "one-body element", lab[i], lab[j], "is", m1[i, j], "expected", want1[i, j])
    c2 = wigner.canonical(g2)
    w2 = wigner.canonical({tuple((ix[x], a) for x, a in q): v for q, v in two.items()})
    for k in set(c2) | set(w2):
        need(abs(c2.get(k, 0) - w2.get(k, 0)) < 1e-9, where, "interaction element", [[lab[x] for x in y] for y in k], "is", c2.get(k, 0), "expected", w2.get(k, 0))
    need(daggerOp(op) == op, where, "is not exactly Hermitian")
    res.states += 1
    res.traces += 1
    res.transitions += m1.size + len(w2)


def cf_check(h0, nBaths, par, where, res):
    """Observable content of the crystal-field operator given as one-body matrix over all spin-orbitals."""
    p = dict(refham.CF_DEFAULT)
    p.update(par)
    ix = refham.pos(nBaths)
    u = refham.cubic()
    P = u[:, :2] @ u[:, :2].conj().T
    Q = np.eye(5) - P
    need(abs(h0 - h0.conj().T).max() < 1e-12, where, "not Hermitian")
    imp = [[ix[2, s, m] for m in range(-2, 3)] for s in range(2)]
    rest = [ix[x] for x in ix if len(x) == 3 and x[0] != 2 or len(x) == 2 and x[0] != 2]
    if rest:
        need(abs(h0[rest]).max() == 0, where, "acts outside the 3d shell and its bath")
    h_imp = (p["e_imp"] + 0.6 * p["e_deltaO_imp"]) * P + (p["e_imp"] - 0.4 * p["e_deltaO_imp"]) * Q
    for s in range(2):
        for t in range(2):
            b = h0[np.ix_(imp[s], imp[t])]
            need(abs(b - (h_imp if s == t else 0)).max() < 1e-12, where, "impurity block of spins", s, t, "is", b)
    blocks = [("val", list(range(10)))] + ([("con", list(range(10, 20)))] if nBaths[2] == 20 else [])
    allb = []
    for name, bs in blocks:
        bi = [ix[2, b] for b in bs]
        allb.append(bi)
        e = h0[np.ix_(bi, bi)]
        want = sorted([p["e_%s_eg" % name]] * 4 + [p["e_%s_t2g" % name]] * 6)
        need(np.allclose(np.linalg.eigvalsh(e), want, rtol=0, atol=1e-11), where, name, "bath energies", np.linalg.eigvalsh(e), "expected", want)
        for z in (0.3 + 1j, -5 + 0.7j, 2j):
            g = np.linalg.inv(z * np.eye(len(bi)) - e)
            delta = p["v_%s_eg" % name] ** 2 / (z - p["e_%s_eg" % name]) * P + p["v_%s_t2g" % name] ** 2 / (z - p["e_%s_t2g" % name]) * Q
            for s in range(2):
                for t in range(2):
                    v, w = h0[np.ix_(bi, imp[s])], h0[np.ix_(bi, imp[t])]
                    d = v.conj().T @ g @ w
                    need(abs(d - (delta if s == t else 0)).max() < 1e-10, where, name, "hybridisation of spins", s, t, "at", z, "is", d, "expected", delta if s == t else 0)
                    res.transitions += d.size
    if len(allb) == 2:
        need(abs(h0[np.ix_(allb[0], allb[1])]).max() == 0, where, "valence and conduction bath mix")
    return imp


def run(case):
    from impurityModel.ed import get_spectra_using_CF as g
    from impurityModel.ed.finite import daggerOp

    res = Result()
    kind = case[0]
    with Files() as files:
        if kind in ("unit", "generic"):
            if kind == "unit":
                (k, i), script = case[1], case[2]
                p = {x: (list(v) if isinstance(v, list) else v) for x, v in ZERO.items()}
                if k == "n3d":
                    p["n3d"] = i
                    p["Fdd"] = [2.0, 0, 1.0, 0, 0.5]
                    p["Fpd"], p["Gpd"] = [1.5, 0, 0.25], [0, 0.75, 0, 0.125]
                elif i is None:
                    p[k] = 1.5
                else:
                    p[k][i] = 2.0
                if k in ("Fdd", "Fpd", "Gpd"):
                    p["n3d"] = 7
            else:
                script = case[1]
                p = dict(GENERIC, n3d=case[2])
            where = f"Hamiltonian ({script}) of {p}"
            if script == "stored":
                nBaths, nVal = arrange(0)
                h0 = {(((2, 0, 1), "c"), ((2, 0, 1), "a")): -1.25}
                op = build(script, files, p, nBaths, nVal, h0)
                compare(op, p, refham.one_matrix(h0, refham.pos(nBaths)), nBaths, where, res)
            else:
                nBaths, nVal = arrange(10)
                par = dict(zip(CF, (0.5, 1.25, -2.0, -3.0, 1.0, 2.0, 0.75, 0.5, 0.25, 0.125)))
                op = build(script, files, p, nBaths, nVal, par)
                ix = refham.pos(nBaths)
                _, one = refham.impurity(*[p[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd", "xi_2p", "xi_3d", "n3d", "c", "hField")])
                m = refham.one_matrix({q: v for q, v in op.items() if len(q) == 2}, {i: i for i in range(len(ix))})
                h0 = m - refham.one_matrix(one, ix)
                cf_check(np.where(abs(h0) < 1e-9, 0, h0), nBaths, par, where, res)
                compare(op, p, h0, nBaths, where, res)
            res.outcomes = {kind + " " + script}
        elif kind == "stored":
            h0 = H0[case[1]]
            for nb1, nb2 in ((0, 10), (2, 10), (0, 12)):
                nBaths, nVal = arrange(nb2, nb1)
                for p in (ZERO, GENERIC):
                    op = build("stored", files, p, nBaths, nVal, h0)
                    compare(op, p, refham.one_matrix(h0, refham.pos(nBaths)), nBaths, f"Hamiltonian with stored operator {h0} of {p}", res)
            # a stored operator that is not Hermitian must be refused
            if case[1] in (2, 3):
                bad = dict(h0)
                bad.pop(next(iter(bad)))
                try:
                    build("stored", files, ZERO, nBaths, nVal, bad)
                except AssertionError:
                    pass
                else:
                    need(False, "non-Hermitian stored operator accepted", bad)
            res.outcomes = {"stored"}
        elif kind == "cf":
            _, present, nb, basis = case
            vals = dict(zip(CF, (0.5, 1.25, -2.0, -3.5, 1.0, 2.0, 0.75, 0.5, 0.25, 0.125)))
            nBaths, nVal = arrange(nb)
            for par in ({k: vals[k] for k in present}, {k: 0 for k in present}, {k: (1 if k in present else 0) for k in CF}):
                kw = {} if basis == "default" else {"bath_state_basis": basis}
                op = g.get_CF_hamiltonian(nBaths, nVal, files.json(par), **kw)
                need(all(len(q) == 2 for q in op), "crystal-field operator has non one-body processes")
                ix = refham.pos(nBaths)
                cf_check(refham.one_matrix(op, ix), nBaths, par, f"get_CF_hamiltonian({par}, nBaths={dict(nBaths)}, {basis})", res)
                need(daggerOp(op) == op, "crystal-field operator", par, "not exactly Hermitian")
                res.states += 1
                res.traces += 1
            res.outcomes = {"cf %d %s" % (nb, basis)}
        elif kind == "small":
            _, s, nb, basis = case
            nBaths, nVal = arrange(nb)
            vals = (2e-5, -3e-5, 4e-5, 7e-5, 5e-5, 6e-5, 8e-5, 1.1e-4, 9e-5, 1.3e-4)
            par = dict(zip(CF, vals[s:] + vals[:s]))
            if s == 2:
                par.update(e_deltaO_imp=1.0, v_val_eg=2.0, e_val_eg=-4.0)
            op = g.get_CF_hamiltonian(nBaths, nVal, files.json(par), basis)
            cf_check(refham.one_matrix(op, refham.pos(nBaths)), nBaths, par, f"get_CF_hamiltonian({par}, nBaths={dict(nBaths)}, {basis})", res)
            res.states += 1
            res.traces += 1
            res.outcomes = {"small parameters"}
        elif kind == "herm":
            nBaths, nVal = arrange(20)
            a = AWKWARD[case[1]]
            for b in AWKWARD:
                for roles in itertools.product((a, b), repeat=3):
                    par = dict(e_imp=roles[0], e_deltaO_imp=roles[1], e_val_eg=roles[2], e_val_t2g=a, e_con_eg=b, e_con_t2g=roles[0], v_val_eg=roles[1], v_val_t2g=b, v_con_eg=a,
                               v_con_t2g=roles[2])
                    for basis in ("spherical", "cubic"):
                        op = g.get_CF_hamiltonian(nBaths, nVal, files.json(par), basis)
                        need(daggerOp(op) == op, "crystal-field operator", par, basis, "is not exactly Hermitian")
                        res.transitions += len(op)
                        res.traces += 1
                    res.states += 1
            p = dict(GENERIC, xi_3d=a, xi_2p=-a, hField=[a, 0.1, a], Fdd=[a, 0, 1 / 3, 0, 0.7], Fpd=[a, 0, 0.1], Gpd=[0, a, 0, 0.3])
            nBaths, nVal = arrange(10)
            op = build("cf", files, p, nBaths, nVal, dict(e_deltaO_imp=a, e_imp=0.1))
            need(daggerOp(op) == op, "Hamiltonian not exactly Hermitian", p)
            res.outcomes = {"hermiticity"}
        elif kind == "baths":
            nBaths, nVal = arrange(10 + 10 * case[1], 3)
            op = g.get_CF_hamiltonian(nBaths, nVal, files.json({}))
            cf_check(refham.one_matrix(op, refham.pos(nBaths)), nBaths, {}, f"get_CF_hamiltonian nBaths={dict(nBaths)}", res)
            p = dict(GENERIC)
            full = build("cf", files, p, nBaths, nVal, {})
            compare(full, p, refham.one_matrix(op, refham.pos(nBaths)), nBaths, "Hamiltonian with 2p bath states", res)
            res.outcomes = {"2p baths"}
        else:
            nBaths, nVal = arrange(10)
            try:
                g.get_CF_hamiltonian(nBaths, nVal, files.json({}), "nonsense")
            except Exception:
                pass
            else:
                need(False, "unknown bath basis accepted")
            res.states = res.transitions = res.traces = 1
            res.outcomes = {"refused"}
    return res
