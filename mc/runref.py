"""Exact reference of a complete run: basis, eigenstates, all spectra by dense diagonalisation of the
(restricted) Hamiltonian in the space reached by the transition operators."""

import itertools

import numpy as np

from mc import fast, ref, refham
from mc.checks import c19, c20

KB = 8.617333262e-5


def normal_to_op(el):
    return {((i, "c"), (j, "a")): v for (i, j), v in el.items() if abs(v) > 1e-12}


class Model:
    """par: dict with ls, nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths (tuples by shell), Slater-Condon and other
    parameters as the run scripts take them; h0: one-body operator by label."""

    def __init__(self, par, h0):
        self.par = par
        by = lambda k: dict(zip(par["ls"], par[k]))  # noqa: E731
        self.nBaths, self.nVal, self.n0 = by("nBaths"), by("nValBaths"), by("n0imps")
        self.dnTol, self.dnVal, self.dnCon = by("dnTols"), by("dnValBaths"), by("dnConBaths")
        self.ix = ix = refham.pos(self.nBaths)
        self.n = len(ix)
        two, one = refham.impurity(par["Fdd"], par["Fpp"], par["Fpd"], par["Gpd"], par["xi_2p"], par["xi_3d"], self.n0[2], par["chargeTransferCorrection"], par["hField"])
        self.op = {}
        for o in (two, one, h0):
            for p, v in o.items():
                k = tuple((ix[lab], a) for lab, a in p)
                self.op[k] = self.op.get(k, 0) + v
        # merge two-body terms, to be fast
        merged = {}
        for p, v in self.op.items():
            if len(p) == 4:
                (i, _), (j, _), (k, _), (l, _) = p
                if i == j or k == l:
                    continue
                s = 1
                if i > j:
                    i, j, s = j, i, -s
                if k > l:
                    k, l, s = l, k, -s
                p, v = ((i, "c"), (j, "c"), (k, "a"), (l, "a")), s * v
            merged[p] = merged.get(p, 0) + v
        self.op = {p: v for p, v in merged.items() if abs(v) > 1e-9}
        self.restr = refham.restrictions(self.nBaths, self.nVal[2], self.n0[2], self.dnTol[2], self.dnVal[2], self.dnCon[2])

    def basis(self):
        ix, parts = self.ix, []
        for l in self.nBaths:
            imp = [ix[l, s, m] for s in range(2) for m in range(-l, l + 1)]
            val = [ix[l, b] for b in range(self.nVal[l])]
            con = [ix[l, b] for b in range(self.nVal[l], self.nBaths[l])]
            out = []
            for v in range(self.dnVal[l] + 1):
                for c in range(self.dnCon[l] + 1):
                    n = self.n0[l] + v - c
                    if abs(v - c) <= self.dnTol[l] and 0 <= n <= len(imp) and v <= len(val) and c <= len(con):
                        for a, b, d in itertools.product(itertools.combinations(imp, n), itertools.combinations(val, len(val) - v), itertools.combinations(con, c)):
                            out.append(ref.mask_of(a + b + d))
            parts.append(out)
        return sorted(sum(x) for x in itertools.product(*parts))

    def eigen(self):
        b = self.basis()
        E, V = np.linalg.eigh(fast.matrix(self.op, b, b))
        return b, E, V

    # ---- spectra of states given as columns over a basis

    def space(self, basis, ops):
        """Everything the operators and then the restricted Hamiltonian reach: (states, E, U, rectangular operator matrices)."""
        start = set()
        for o in ops:
            for _, m, _ in fast.images(o, basis, self.restr):
                start.update(m.tolist())
        st = fast.closure(self.op, start, self.restr)
        E, U = np.linalg.eigh(fast.matrix(self.op, st, st, self.restr)) if len(st) else (np.zeros(0), np.zeros((0, 0)))
        return st, E, U, [fast.matrix(o, st, basis, self.restr) for o in ops]

    def greens(self, basis, es, V, ops, w, delta):
        """[state, operator, w] <T+ 1/(w + i delta + e - H) T>"""
        g = np.zeros((len(es), len(ops), len(w)), dtype=complex)
        # operators of different electron number have separate spaces
        st, E, U, T = self.space(basis, ops)
        for i, e in enumerate(es):
            for t in range(len(ops)):
                a = abs(U.conj().T @ (T[t] @ V[:, i])) ** 2
                keep = a > 1e-14
                g[i, t] = (a[keep] / ((w + e)[:, None] + 1j * delta - E[keep])).sum(1)
        return g

    def photo(self, l, action):
        return [{((self.ix[l, s, m], action),): 1} for s in range(2) for m in range(-l, l + 1)]

    def spectra(self, basis, es, V, m):
        """m: meshes and operators (w, delta, eps, wLoss, deltaNIXS, qs, li, lj, Ri, Rj, r, wIn, deltaRIXS, epsIn, epsOut)."""
        out = {}
        w, d = m["w"], m["delta"]
        rem = [self.greens(basis, es, V, self.photo(l, "a"), -w, -d).imag for l in (2, 1)]
        out["PS"] = rem[0] - self.greens(basis, es, V, self.photo(2, "c"), w, d).imag
        out["XPS"] = rem[1]
        nx = []
        for q in m["qs"]:
            x = c20.constant() * c20.want(q, m["li"], m["lj"], m["Ri"], m["Rj"], m["r"], 1)
            nx.append({((self.ix[m["li"], s, a - m["li"]], "c"), (self.ix[m["lj"], s, b - m["lj"]], "a")): x[a, b] for s in range(2) for a in range(2 * m["li"] + 1) for b in range(2 * m["lj"] + 1) if abs(x[a, b]) > 1e-10})
        out["NIXS"] = -self.greens(basis, es, V, nx, m["wLoss"], m["deltaNIXS"]).imag
        dip = lambda e: normal_to_op(c19.want(self.nBaths, e))  # noqa: E731
        out["XAS"] = -self.greens(basis, es, V, [dip(e) for e in m["eps"]], w, d).imag
        tin = [dip(e) for e in m["epsIn"]]
        tout = [ref.adjoint(dip(e)) for e in m["epsOut"]]
        s2, E2, U2, T2 = self.space(basis, tin)
        s3, E3, U3, T3 = self.space(s2, tout) if len(s2) else (None, None, None, None)
        r = np.zeros((len(es), len(tin), len(tout), len(m["wIn"]), len(m["wLoss"])), dtype=complex)
        if len(s2):
            T3 = [U3.conj().T @ x @ U2 for x in T3]
            for i, e in enumerate(es):
                L = 1 / (m["wLoss"][:, None] + 1j * m["deltaRIXS"] + e - E3)
                for a in range(len(tin)):
                    x = U2.conj().T @ (T2[a] @ V[:, i])
                    for k, win in enumerate(m["wIn"]):
                        y = x / (win + 1j * m["delta"] + e - E2)
                        for b in range(len(tout)):
                            r[i, a, b, k] = L @ abs(T3[b] @ y) ** 2
        out["RIXS"] = -r.imag
        return out


def boltzmann(es, obs, T):
    es = np.array(es)
    w = np.exp(-(es - es.min()) / (KB * T))
    return np.tensordot(w / w.sum(), obs, 1)


def multiplets(E, n, tol=1e-5):
    """Groups of the first n levels that are complete multiplets of E."""
    out, i = [], 0
    while i < n:
        j = i + 1
        while j < len(E) and E[j] - E[j - 1] < tol:
            j += 1
        if j <= n:
            out.append(range(i, j))
        i = j
    return out
