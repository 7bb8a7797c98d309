"""C25: complete runs.

The run scripts' main functions (crystal-field file and stored operator) are executed in a
scratch directory for a grid of fillings, baths, occupation windows, fields, temperatures,
energy cuts, numbers of states and parameters; simulate_spectra additionally on small meshes
for every combination of operator-list lengths, numbers of states and
temperatures, and both on several virtual ranks. Everything in spectra.h5, *.dat, RIXS.bin and
data.npz is compared with an exact reference (dense diagonalisation, exact angular
algebra, plane-wave integrals) and with each other. Levels that are degenerate are compared
multiplet by multiplet.
"""

import json
import os
import pickle
import re
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

from mc import ref, refham, runref
from mc.harness import Result, need

ID = "C25"
MEANING = "states: (parameter set, file) pairs; transitions: numbers compared; traces: complete runs of the real code"
ASSUMPTIONS = ["the default Krylov size (150) and product-state weight cut-off (1e-7) resolve the spectra to 0.5 % of their maximum"]
TIMEOUT = 800
CHUNK = 1
TOL = 5e-3
X = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
BASE = dict(ls=(1, 2), nBaths=(0, 10), nValBaths=(0, 10), n0imps=(6, 9), dnTols=(0, 0), dnValBaths=(0, 0), dnConBaths=(0, 0), Fdd=(7.5, 0, 9.9, 0, 6.6), Fpp=(0.0, 0.0, 0.0),
            Fpd=(8.9, 0, 6.8), Gpd=(0.0, 5.0, 0, 2.8), xi_2p=11.629, xi_3d=0.096, chargeTransferCorrection=1.5, hField=(0.004, 0.006, 0.03), nPsiMax=5, nPrintSlaterWeights=3,
            tolPrintOccupation=0.5, T=300, energy_cut=10, delta=0.2, deltaRIXS=0.05, deltaNIXS=0.1)
OTHER = dict(Fdd=(6.0, 0, 8.8, 0, 5.5), Fpp=(1.0, 0.0, 0.5), Fpd=(7.1, 0, 5.8), Gpd=(0.0, 4.1, 0, 2.3), xi_2p=8.2, xi_3d=0.21, chargeTransferCorrection=0.7)
CF2 = dict(e_imp=-0.9, e_deltaO_imp=1.1, e_val_eg=-3.4, e_val_t2g=-5.0, v_val_eg=1.5, v_val_t2g=1.1)

CF3 = dict(e_con_eg=1.3, e_con_t2g=0.9, v_con_eg=0.8, v_con_t2g=1.1)


def BOUNDS(tier):
    return dict(runs=sum(c[0] in ("cf", "op") for c in cases(tier)), simulations=sum(c[0] == "sim" for c in cases(tier)), ranks="1..3")


def cases(tier):
    deep = tier == "thorough"
    out = []
    # simulate_spectra on small meshes: numbers of states, XAS / incoming / outgoing polarisations, momenta, incoming energies
    for ns in (1, 2, 3):
        for ne in (1, 2, 3):
            for ni in (1, 2, 3):
                for no in (1, 2, 3):
                    if deep or (ns + ne + 2 * ni + no) % 3 == 0:
                        out.append(["sim", ns, ne, ni, no, (ns + ni) % 3 + 1, (ne + no) % 4 + 1])
    for size in (2, 3):
        out.append(["ranks", size, 1, 2, 1, 2])
        out.append(["ranks", size, 2, 1, 3, 1])
    for size in (2, 3):
        out += [["mainranks", size, i] for i in (range(len(SMALL)) if deep else (0, 1))]
    out += [["again", i, j] for i in range(len(SMALL)) for j in range(len(SMALL)) if i != j and (deep or (i + j) % 2 == 1 and i < 3)]
    # main functions
    cf = [
        dict(),
        dict(n0imps=(6, 10), delta=0.1, deltaRIXS=0.16, deltaNIXS=0.04),
        dict(n0imps=(6, 0), nPsiMax=1),
        dict(n0imps=(6, 1), T=2000, nPsiMax=4, energy_cut=1.3),
        dict(n0imps=(6, 9), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 0), T=77, nPsiMax=6),
        dict(OTHER, n0imps=(6, 9), nPsiMax=10, T=3000, energy_cut=3.1, hField=(0.05, -0.02, 0.01), delta=0.3, deltaRIXS=0.12, deltaNIXS=0.17),
        dict(n0imps=(6, 8), nPsiMax=9, hField=(0.0, 0.03, 0.004)),
        dict(n0imps=(6, 9), nPsiMax=1, energy_cut=0.5),
        dict(n0imps=(6, 9), dnTols=(0, 2), dnValBaths=(0, 0)),
    ]
    for i, c in enumerate(cf):
        out.append(["cf", c, CF2 if i % 2 else {}])
    out.append(["cf", dict(n0imps=(6, 1), nBaths=(0, 20), dnConBaths=(0, 1), dnTols=(0, 1), nPsiMax=2, T=500), CF3])
    out.append(["cf", dict(n0imps=(6, 1), nBaths=(0, 20), dnTols=(0, 1), nPsiMax=1), CF3])
    op = [
        dict(nBaths=(0, 2), nValBaths=(0, 1), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), n0imps=(6, 9)),
        dict(nBaths=(0, 0), nValBaths=(0, 0), n0imps=(6, 1), nPsiMax=6, T=1000),
        dict(nBaths=(1, 2), nValBaths=(1, 2), n0imps=(6, 9), dnTols=(1, 1), dnValBaths=(0, 1)),
        dict(OTHER, nBaths=(0, 3), nValBaths=(0, 2), dnTols=(0, 2), dnValBaths=(0, 2), n0imps=(6, 8), nPsiMax=4, hField=(-0.02, 0.01, 0.03), delta=0.4, deltaRIXS=0.2, deltaNIXS=0.25, T=150),
        dict(nBaths=(2, 1), nValBaths=(1, 0), n0imps=(6, 10), dnConBaths=(0, 1), dnTols=(0, 1), nPsiMax=3, delta=0.15, deltaRIXS=0.2, deltaNIXS=0.25),
    ]
    out += [["op", c, i] for i, c in enumerate(op)]
    out.append(["op", dict(nBaths=(0, 1), nValBaths=(0, 1), dnTols=(0, 1), dnValBaths=(0, 1), n0imps=(6, 1), nPsiMax=3, T=700), 103])
    if deep:
        for n in (2, 7):
            out.append(["cf", dict(n0imps=(6, n), nPsiMax=4), CF2])
        out.append(["cf", dict(n0imps=(6, 8), dnTols=(0, 2), dnValBaths=(0, 2), nPsiMax=3, hField=(0, 0, 1e-4)), {}])
        out.append(["cf", dict(n0imps=(6, 9), nBaths=(0, 20), dnConBaths=(0, 1), dnTols=(0, 1), dnValBaths=(0, 0), nPsiMax=1), {}])
        for n in range(11):
            for nb, nv in ((0, 0), (1, 0), (1, 1), (2, 1)):
                if n in (0, 1, 2, 8, 9, 10) or nb == 0 and n in (3, 7):
                    out.append(["op", dict(nBaths=(0, nb), nValBaths=(0, nv), n0imps=(6, n), dnTols=(0, min(1, 10 - n)), dnValBaths=(0, int(nv and n < 10)), dnConBaths=(0, int(nb > nv and n > 0)), nPsiMax=min(3, 1 if n in (0, 10) else 3), T=400), n])
    return out


# ---- running


def radial(k):
    k %= 100
    r = np.linspace(0.0, 6.0, 300 + 50 * k)
    R = r**2 * np.exp(-(1.2 + 0.3 * k) * r)
    return r, R / np.sqrt(np.sum(R**2 * r**2) * (r[1] - r[0]))


class scratch:
    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp(prefix="mc-run-")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def stored_h0(par, k):
    """A Hermitian one-body operator by label: crystal field, baths and hoppings, complex."""
    op = {}
    # hundreds: 3d energies lifted by 100 eV (positive total energies)
    lift, k = 100 * (k // 100), k % 100

    def put(a, b, v):
        if a == b:
            op[((a, "c"), (a, "a"))] = np.real(v)
        else:
            op[((a, "c"), (b, "a"))] = v
            op[((b, "c"), (a, "a"))] = np.conj(v)

    for s in range(2):
        for m in range(-2, 3):
            put((2, s, m), (2, s, m), lift - 1.3 + 0.11 * m * m + 0.02 * m * (1 + k))
        put((2, s, -2), (2, s, 2), 0.25 + 0.1j * (k % 2))
        put((2, s, -1), (2, s, 1), 0.07j)
    for l, n, nv in zip(par["ls"], par["nBaths"], par["nValBaths"]):
        for b in range(n):
            put((l, b), (l, b), (-4.0 - 0.3 * b if b < nv else 2.0 + 0.4 * b) - (60 if l == 1 else -lift))
            put((l, b), (l, b % 2, (b + k) % (2 * l + 1) - l), 0.9 - 0.3j * b)
            put((l, b), (l, 1, 0), 0.4)
    return op


def meshes(par, k):
    r, R = radial(k)
    return dict(w=np.linspace(-25, 25, 3000), delta=par["delta"], eps=X, wLoss=np.linspace(-2, 12, 4000), deltaNIXS=par["deltaNIXS"],
                qs=[2 * np.array([1, 1, 1]) / np.sqrt(3), 7 * np.array([1, 1, 1]) / np.sqrt(3)], li=2, lj=2, Ri=R, Rj=R, r=r, wIn=np.linspace(-10, 20, 50), deltaRIXS=par["deltaRIXS"], epsIn=X, epsOut=X)


def start(kind, par, extra):
    """Write the input files and call the real main function in the current directory."""
    k = inputs(kind, par, extra)
    call(kind, par)
    return k


def inputs(kind, par, extra):
    k = extra if kind == "op" else len(extra)
    r, R = radial(k)
    np.savetxt("radial in.dat", np.array([r, R]).T, header="r R(r)")
    if kind == "cf":
        with open("h0 in.json", "w") as f:
            json.dump(extra, f)
    else:
        with open("h0 in.pickle", "wb") as f:
            pickle.dump(stored_h0(par, extra), f)
    return k


def call(kind, par):
    if kind == "cf":
        from impurityModel.ed.get_spectra_using_CF import main

        main("h0 in.json", "radial in.dat", **par)
    else:
        from impurityModel.ed.get_spectra import main

        main("h0 in.pickle", "radial in.dat", **par)


# ---- comparing


# what the product-state weight cut-off (1e-7) can change in a weak spectrum
FLOOR = dict(PS=1e-4, XPS=1e-4, XAS=1e-4, NIXS=5e-6, RIXS=5e-4)


def close(got, want, tol, where, res, scale=None, floor=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, where, "has shape", got.shape, "expected", want.shape)
    if not want.size:
        return
    need(np.all(np.isfinite(got)), where, "is not finite")
    s = np.abs(want).max() if scale is None else scale
    d = np.abs(got - want).max()
    if d > tol * s + floor:
        i = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
        need(False, where, "at", tuple(int(x) for x in i), "is", got[i], "expected", want[i], "(largest value %g)" % s)
    res.transitions += want.size


def content():
    import h5py

    with h5py.File("spectra.h5", "r") as f:
        h = {k: np.array(f[k]) for k in f}
    return h


def consistency(h, es, m, T, res, where):
    ns = len(es)
    shapes = dict(PS=(ns, 10, len(m["w"])), XPS=(ns, 6, len(m["w"])), NIXS=(ns, len(m["qs"]), len(m["wLoss"])), XAS=(ns, len(m["eps"]), len(m["w"])),
                  RIXS=(ns, len(m["epsIn"]), len(m["epsOut"]), len(m["wIn"]), len(m["wLoss"])))
    for name, sh in shapes.items():
        need(name in h and name + "thermal" in h, where, name, "is missing in spectra.h5")
        need(h[name].shape == sh, where, name, "has shape", h[name].shape, "expected", sh)
        close(h[name + "thermal"], runref.boltzmann(es, h[name], T), 1e-9, where + " thermal average of " + name, res)
        need(h[name].min() > -1e-6 * h[name].max() - 1e-9, where, name, "is negative")
    for name in ("PS", "XPS", "NIXS", "XAS"):
        mesh = m["wLoss"] if name == "NIXS" else m["w"]
        a = h[name + "thermal"]
        d = np.loadtxt(name + ".dat", ndmin=2)
        need(d.shape == (len(mesh), 2 + len(a)), where, name + ".dat has shape", d.shape)
        want = np.array([mesh, a.sum(0)] + list(a)).T
        close(d, want, 5.1e-5, where + " " + name + ".dat", res, 1)
        head = open(name + ".dat").readline()
        need(head.startswith("#") and re.search(r"E\s+sum\s+T1", head), where, name + ".dat header", head)
        res.states += 1
    b = np.fromfile("RIXS.bin", dtype=np.float32)
    nw, nl = len(m["wIn"]), len(m["wLoss"])
    need(b.size == (nw + 1) * (nl + 1), where, "RIXS.bin has", b.size, "numbers")
    b = b.reshape(nl + 1, nw + 1)
    a = h["RIXSthermal"].sum((0, 1))
    need(b[0, 0] == nw, where, "RIXS.bin starts with", b[0, 0])
    close(b[0, 1:], m["wIn"], 1e-6, where + " RIXS.bin incoming energies", res)
    close(b[1:, 0], m["wLoss"], 1e-6, where + " RIXS.bin energy losses", res)
    close(b[1:, 1:], a.T, 1e-6, where + " RIXS.bin map", res)
    res.states += 2


def compare(h, want, E, ns, res, where, tol=TOL):
    for name in ("PS", "XPS", "NIXS", "XAS", "RIXS"):
        for g in runref.multiplets(E, ns):
            got, exp = h[name][list(g)].sum(0), want[name][list(g)].sum(0)
            # relative to the largest value among the operators of this spectrum
            close(got, exp, tol, f"{where} {name} of levels {list(g)}", res, exp.max(initial=0), FLOOR[name])
        res.states += 1


def plain(x):
    return x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x


def effective(restrictions):
    """What restrictions mean: bounds that exclude something."""
    out = {}
    for k, (lo, hi) in restrictions.items():
        lo, hi = max(int(lo), 0), min(int(hi), len(k))
        if (lo, hi) != (0, len(k)):
            out[tuple(sorted(k))] = lo, hi
    return out


def stored(par, kind, model, m, res, where):
    z = np.load("data.npz", allow_pickle=True)
    d = {k: plain(z[k]) for k in z.files}
    name = "h0_CF_filename" if kind == "cf" else "h0_filename"
    need(d.get(name) == ("h0 in.json" if kind == "cf" else "h0 in.pickle"), where, "stored", name, "is", d.get(name))
    for k in ("ls", "Fdd", "Fpp", "Fpd", "Gpd", "hField", "xi_2p", "xi_3d", "chargeTransferCorrection", "nPsiMax", "T", "delta", "deltaRIXS", "deltaNIXS"):
        need(k in d and np.array_equal(np.asarray(d[k], float), np.asarray(par[k], float)), where, "stored", k, "is", d.get(k), "expected", par[k])
    for k in ("nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths"):
        need(k in d and dict(d[k]) == dict(zip(par["ls"], par[k])), where, "stored", k, "is", d.get(k), "expected", par[k])
    need(abs(d["energy_cut"] - par["energy_cut"] * runref.KB * par["T"]) < 1e-6 * d["energy_cut"], where, "stored energy_cut is", d["energy_cut"])
    for k, want in (("epsilons", X), ("epsilonsRIXSin", X), ("epsilonsRIXSout", X)):
        need(np.array_equal(np.asarray(d[k], float), want), where, "stored", k, "is", d[k])
    need(d["n_spin_orbitals"] == model.n, where, "stored n_spin_orbitals is", d["n_spin_orbitals"])
    need(effective(d["restrictions"]) == effective(model.restr), where, "stored restrictions are", d["restrictions"], "expected", model.restr)
    # the stored Hamiltonian acts like the reference on one-, two- and three-electron states
    hOp = {p: v for p, v in d["hOp"].items() if v != 0}
    from mc import fast

    for b in ([1 << i for i in range(model.n)], [1 << i | 1 << j for i in range(16) for j in range(i)]):
        b = sorted(b)
        rows = fast.closure(model.op, b)
        close(fast.matrix(hOp, rows, b), fast.matrix(model.op, rows, b), 1e-9, where + " stored Hamiltonian", res)
    res.states += 1


def prepare(kind, change, extra):
    par = dict(BASE)
    par.update({k: tuple(v) if isinstance(v, list) else v for k, v in change.items()})
    h0 = refham.cf_h0(dict(zip(par["ls"], par["nBaths"])), extra) if kind == "cf" else stored_h0(par, extra)
    model = runref.Model(par, h0)
    m = meshes(par, extra if kind == "op" else len(extra))
    basis, E, V = model.eigen()
    n = min(par["nPsiMax"], len(basis))
    cut = par["energy_cut"] * runref.KB * par["T"]
    rel = E[:n] - E[0]
    need(not np.any(abs(rel - cut) < 1e-6), "bad case: a level at the energy cut")
    ns = int((rel < cut).sum())
    return par, model, m, E, n, ns, model.spectra(basis, E[:ns], V[:, :ns], m)


def verify(kind, prepared, where, res):
    """Everything in the current directory against the reference."""
    par, model, m, E, n, ns, want = prepared
    h = content()
    close(h["E"], E[:n], 1e-6, where + " energies", res, 1)
    for key, x in (("w", m["w"]), ("wIn", m["wIn"]), ("wLoss", m["wLoss"]), ("qsNIXS", m["qs"]), ("r", m["r"]), ("RiNIXS", m["Ri"]), ("RjNIXS", m["Rj"])):
        close(h[key], x, 1e-12, where + " " + key, res)
    consistency(h, h["E"][:ns], m, par["T"], res, where)
    stored(par, kind, model, m, res, where)
    compare(h, want, E, ns, res, where)
    res.outcomes.add("%s, %d of %d states, multiplets %s" % (kind, ns, n, [len(g) for g in runref.multiplets(E, ns)]))


def run_main(case, res):
    kind, change, extra = case
    p = prepare(kind, change, extra)
    with scratch():
        start(kind, p[0], extra)
        verify(kind, p, f"run {kind} {change} {extra}:", res)
    res.traces += 1


# small complete runs that differ in everything, for several in one directory and on several ranks
SMALL = [
    ["cf", dict(n0imps=(6, 9), nPsiMax=2), {}],
    ["op", dict(nBaths=(0, 2), nValBaths=(0, 1), dnTols=(0, 1), dnValBaths=(0, 1), dnConBaths=(0, 1), n0imps=(6, 9), T=500, delta=0.3, nPsiMax=4), 0],
    ["op", dict(OTHER, nBaths=(1, 1), nValBaths=(1, 1), n0imps=(6, 10), nPsiMax=1, deltaNIXS=0.2), 1],
    ["cf", dict(OTHER, n0imps=(6, 9), nPsiMax=3, T=900, hField=(0.01, 0.02, -0.03), deltaRIXS=0.11), CF2],
]


def run_again(case, res):
    """Several runs with the same file names in one directory and one process."""
    ps = [(SMALL[i][0], SMALL[i][2], prepare(*SMALL[i])) for i in case[1:]]
    with scratch():
        for j, (kind, extra, p) in enumerate(ps):
            start(kind, p[0], extra)
            verify(kind, p, f"run {j} of the runs {[SMALL[i][:2] for i in case[1:]]} in the same directory:", res)
            res.traces += 1
    res.outcomes.add("again")


def run_main_ranks(case, res):
    from mc import mpicheck

    size, i = case[1:]
    kind, change, extra = SMALL[i]
    p = prepare(kind, change, extra)
    with scratch() as d:
        before = set(os.listdir("."))
        inputs(kind, p[0], extra)
        keep = set(os.listdir(".")) - before

        def judge(results, w):
            verify(kind, p, w, res)
            for name in os.listdir(d):
                if name not in keep:
                    os.unlink(name)

        mpicheck.every(size, "main", [(d, kind, p[0])] * size, 0, res, judge, f"main {kind} {change}", modes=("eager", "rendezvous") if i == 1 else ("eager",))
    res.outcomes.add("main on %d ranks" % size)


# ---- simulate_spectra


EPS = [[1, 0, 0], [0.6, 0.0, 0.8], [0.5, -0.5, 0.7]]
QS = [np.array([0.0, 0, 1.5]), np.array([2.0, 1, -1]), np.array([-3.0, 0.5, 0])]


def simulation(ns, ne, ni, no, nq, nw, k=0):
    """Model and arguments of one simulate_spectra call."""
    n = 9 if k % 2 == 0 else 1
    par = dict(BASE, nBaths=(0, k % 3), nValBaths=(0, k % 3), n0imps=(6, n), dnTols=(0, 1), dnValBaths=(0, int(k % 3 > 0)), hField=(0.02, 0.05, 0.03))
    model = runref.Model(par, stored_h0(par, k))
    r, Ri = radial(k)
    li, lj = [(2, 2), (2, 2), (2, 1)][nq - 1]
    Rj = Ri if (li, lj) == (2, 2) else radial(k + 1)[1][: len(r)]
    d1, d2 = (0.45, 0.25) if (ni + no) % 2 else (0.25, 0.4)
    m = dict(w=np.linspace(-9, 11, 37), delta=d1, eps=EPS[::-1][:ne], wLoss=np.linspace(-1, 5, 23) + 0.1, deltaNIXS=0.3, qs=QS[:nq], li=li, lj=lj, Ri=Ri, Rj=Rj, r=r,
             wIn=np.linspace(-7, 9, nw) if nw > 1 else np.array([1.5]), deltaRIXS=d2, epsIn=EPS[:ni], epsOut=EPS[1:][::-1][:no] if no < 3 else EPS[::-1])
    return model, m, [150, 4000, 900][(ns + no) % 3]


def simulate_args(case):
    ns, ne, ni, no, nq, nw = case
    model, m, T = simulation(*case, k=(ns + ne + ni + no) % 4)
    basis, E, V = model.eigen()
    psis = [{ref.enc(b, model.n): V[j, i] for j, b in enumerate(basis) if abs(V[j, i]) > 1e-9} for i in range(ns)]
    restr = {frozenset(k): v for k, v in model.restr.items()}
    nB = OrderedDict(zip((1, 2), (model.nBaths[1], model.nBaths[2])))
    args = (tuple(float(e) for e in E[:ns]), tuple(psis), dict(model.op), T, m["w"], m["delta"], m["eps"], m["wLoss"], m["deltaNIXS"], m["qs"], m["li"], m["lj"], m["Ri"], m["Rj"], m["r"],
            m["wIn"], m["deltaRIXS"], m["epsIn"], m["epsOut"], restr)
    return model, m, T, basis, E, V, args, nB


def run_sim(case, res):
    import h5py
    from impurityModel.ed.spectra import simulate_spectra

    model, m, T, basis, E, V, args, nB = simulate_args(case[1:])
    ns = case[1]
    where = f"simulate_spectra {case[1:]}:"
    with scratch():
        simulate_spectra(*args, h5py.File("spectra.h5", "w"), nB)
        h = content()
        consistency(h, E[:ns], m, T, res, where)
        compare(h, model.spectra(basis, E[:ns], V[:, :ns], m), E, ns, res, where)
    res.traces += 1
    res.outcomes.add("simulation, %d states" % ns)


def run_ranks(case, res):
    from mc import mpicheck

    size, ns, ne, ni, no = case[1:]
    sim = (ns, ne, ni, no, 2, 2 + ne)
    model, m, T, basis, E, V, args, nB = simulate_args(sim)
    want = model.spectra(basis, E[:ns], V[:, :ns], m)
    with scratch() as d:

        def judge(results, w):
            h = content()
            consistency(h, E[:ns], m, T, res, w)
            compare(h, want, E, ns, res, w)
            for name in os.listdir(d):
                os.unlink(name)

        mpicheck.every(size, "simulate", [(d, args, nB)] * size, 0, res, judge, f"simulate_spectra {sim}")
    res.outcomes.add("simulation on %d ranks" % size)


def worker_exit():
    from mc import mpicheck

    mpicheck.close()


def run(case):
    res = Result()
    {"cf": run_main, "op": run_main, "sim": run_sim, "ranks": run_ranks, "again": run_again, "mainranks": run_main_ranks}[case[0]](case, res)
    return res
