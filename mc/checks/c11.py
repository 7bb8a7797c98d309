"""C11: one-body terms and double counting.

Spin-orbit and field operators for l up to 6 and a grid of strengths / all sign and
axis combinations of field components compared element-wise with xi L.S and h.S
built from angular momentum matrices, plus commutator and spectrum identities;
double counting for all occupations and unit Slater integrals against the trace of
the exact Coulomb operator over all two-electron configurations, and every
incomplete or non-integer argument combination; cubic harmonics for p and d, with
and without spin, against the real harmonics evaluated on a grid of directions.
"""

import itertools

import numpy as np

from mc import ref, wigner
from mc.harness import Result, need

ID = "C11"
MEANING = "states: parameter choices; transitions: matrix elements or numbers compared; traces: real calls"


def BOUNDS(tier):
    return dict(l="0..6 (field 0..5)", field="all of {-0.3,0,0.2,1,1e-7}^3", xi="8 values, 0 and 1e-8 to 11.6", dc="n3d=0..10 (9), unit Slater integrals, all argument omissions")


def cases(tier):
    return ([["soc", l] for l in range(7)] + [["field", l, i] for l in range(6) for i in range(5)] + [["dc", n] for n in range(11)] + [["dcbad"]]
            + [["cubic", l, s] for l in (1, 2) for s in (False, True, "default")])


def mats(l):
    labels = [(l, s, m) for s in range(2) for m in range(-l, l + 1)]
    d = 2 * l + 1
    lp = np.zeros((d, d))
    for i in range(d - 1):
        m = i - l
        lp[i + 1, i] = np.sqrt(l * (l + 1) - m * (m + 1))
    lz = np.diag(np.arange(-l, l + 1.0))
    L = [(lp + lp.T) / 2, (lp - lp.T) / 2j, lz]
    sp = np.array([[0, 0], [1, 0]])  # up = index 1
    S = [(sp + sp.T) / 2, (sp - sp.T) / 2j, np.diag([-0.5, 0.5])]
    return labels, [np.kron(np.eye(2), x) for x in L], [np.kron(x, np.eye(d)) for x in S]


def matrix(op, labels, where):
    pos = {x: i for i, x in enumerate(labels)}
    h = np.zeros((len(labels),) * 2, dtype=complex)
    for p, v in op.items():
        need(len(p) == 2 and p[0][1] == "c" and p[1][1] == "a" and p[0][0] in pos and p[1][0] in pos, where, "has process", p)
        h[pos[p[0][0]], pos[p[1][0]]] += v
    return h


def run(case):
    from impurityModel.ed import finite

    res = Result()
    kind = case[0]
    if kind == "soc":
        l = case[1]
        labels, L, S = mats(l)
        ls = sum(a @ b for a, b in zip(L, S))
        for xi in (1.0, 0.096, -2.0, 11.629, 0, 3, 2e-5, -1e-8):
            op = finite.getSOCop(xi, l) if l != 2 or xi != 1.0 else finite.getSOCop(xi)
            h = matrix(op, labels, "getSOCop")
            need(abs(h - xi * ls).max() <= 1e-13 * abs(xi), f"getSOCop({xi},{l}) is", h, "expected", xi * ls)
            want = sorted([xi * l / 2] * (2 * l + 2) + [-xi * (l + 1) / 2] * (2 * l))
            need(np.allclose(np.linalg.eigvalsh(h), want, atol=1e-10), "spectrum of xi L.S", xi, l)
            res.transitions += h.size
            res.states += 1
            res.traces += 1
        res.outcomes = {"soc"}
    elif kind == "field":
        l = case[1]
        labels, L, S = mats(l)
        vals = (-0.3, 0, 0.2, 1, 1e-7)
        hx = vals[case[2]]
        for hy, hz in itertools.product(vals, repeat=2):
            for op in [finite.gethHfieldop(hx, hy, hz, l)] + ([finite.gethHfieldop(hx, hy, hz)] if l == 2 else []):
                h = matrix(op, labels, "gethHfieldop")
                want = hx * S[0] + hy * S[1] + hz * S[2]
                need(abs(h - want).max() < 1e-14, f"gethHfieldop({hx},{hy},{hz},{l}) is", h, "expected", want)
                res.transitions += h.size
                res.traces += 1
            res.states += 1
        res.outcomes = {"field"}
    elif kind == "dc":
        n = case[1]
        lab = {l: [(l, s, m) for s in range(2) for m in range(-l, l + 1)] for l in (1, 2)}
        allp = lab[1] + lab[2]
        pos = {x: i for i, x in enumerate(allp)}

        def average(op, pairs):
            h = {tuple((pos[x], a) for x, a in p): v for p, v in op.items()}
            tot = 0
            for x, y in pairs:
                m = 1 << pos[x] | 1 << pos[y]
                tot += ref.apply(h, {m: 1}).get(m, 0)
            return tot / len(pairs)

        dd = list(itertools.combinations(lab[2], 2))
        pd = list(itertools.product(lab[1], lab[2]))
        units = [("Fdd", k) for k in range(5)] + [("Fpd", k) for k in range(3)] + [("Gpd", k) for k in range(4)] + ["all", "none", "small"]
        for u in units:
            par = dict(Fdd=[0.0] * 5, Fpd=[0.0] * 3, Gpd=[0.0] * 4)
            if u in ("all", "small"):
                par = dict(Fdd=[7.5, 0, 9.9, 0, 6.6], Fpd=[8.9, 0, 6.8], Gpd=[0, 5.0, 0, 2.8])
                if u == "small":
                    par = {k: [x * 1e-6 for x in v] for k, v in par.items()}
            elif u != "none":
                par[u[0]][u[1]] = 3.0
            Udd = average(wigner.uop(2, 2, 2, 2, par["Fdd"]), dd)
            Upd = average(wigner.u2p3d([0] * 5, [0] * 3, par["Fpd"], par["Gpd"]), pd)
            for c in (0.0, 1.5, -2):
                args = {k: list(v) for k, v in par.items()}
                d1 = finite.dc_MLFT(n, c, args["Fdd"])
                need(abs(d1 - (n * Udd - c)) < 1e-11 * max(par["Fdd"] + [abs(c)]) + 1e-16, "dc_MLFT", n, c, par, "is", d1, "expected", n * Udd - c)
                d2 = finite.dc_MLFT(n3d_i=n, c=c, Fdd=args["Fdd"], n2p_i=6, Fpd=args["Fpd"], Gpd=args["Gpd"])
                want = [n * Udd + 6 * Upd - c, (n + 1) * Upd - c]
                need(len(d2) == 2 and np.allclose(list(d2), want, rtol=0, atol=1e-11 * max(sum(par.values(), [abs(c)])) + 1e-16), "dc_MLFT", n, c, par, "is", d2, "expected", want)
                need(args == {k: list(v) for k, v in par.items()}, "arguments modified")
                res.transitions += 3
                res.traces += 2
            res.states += 1
        res.outcomes = {"dc"}
    elif kind == "dcbad":
        F, P, G = [7.5, 0, 9.9, 0, 6.6], [8.9, 0, 6.8], [0, 5.0, 0, 2.8]
        bad = [dict(n3d_i=x) for x in (7.5, 0.1, 9.999)]
        bad += [dict(n3d_i=8, n2p_i=x, Fpd=P, Gpd=G) for x in (5.5, 5, 0, 7, None)]
        for a, b, c in itertools.product((6, None), (P, None), (G, None)):
            if (a, b, c) not in ((6, P, G), (None, None, None)):
                bad.append(dict(n3d_i=8, n2p_i=a, Fpd=b, Gpd=c))
        for kw in bad:
            try:
                r = finite.dc_MLFT(c=1.5, Fdd=F, **kw)
            except ValueError:
                pass
            except Exception as e:
                need(False, "dc_MLFT", kw, "raises", type(e).__name__)
            else:
                need(False, "dc_MLFT accepts", kw, "and gives", r)
            res.transitions += 1
            res.states += 1
            res.traces += 1
        need(finite.dc_MLFT(8.0, 1.5, F) == finite.dc_MLFT(8, 1.5, F), "float-valued integer occupation")
        res.outcomes = {"refused"}
    else:
        _, l, spin = case
        kw = {} if spin == "default" else {"spinpol": spin}
        u = finite.get_spherical_2_cubic_matrix(l=l, **kw) if l == 1 or spin != "default" else finite.get_spherical_2_cubic_matrix()
        spin = spin is True
        d = 2 * l + 1
        need(u.shape == ((2 * d, 2 * d) if spin else (d, d)), "shape", u.shape)
        need(abs(u.conj().T @ u - np.eye(len(u))).max() < 1e-12, "not unitary")
        if spin:
            need(abs(u[:d, d:]).max() == 0 and abs(u[d:, :d]).max() == 0, "mixes spins")
            need(abs(u[:d, :d] - u[d:, d:]).max() == 0, "spins differ")
        blocks = [u[:d, :d], u[d:, d:]] if spin else [u]
        for x, y, z in itertools.product((-1.0, -0.4, 0.0, 0.3, 1.1), repeat=3):
            r = np.sqrt(x * x + y * y + z * z)
            if r == 0:
                continue
            x, y, z = x / r, y / r, z / r
            p, q = x + 1j * y, x - 1j * y
            if l == 1:  # Condon-Shortley, common factor sqrt(3/4pi) left out
                Y = [q / np.sqrt(2), z, -p / np.sqrt(2)]
                want = [y, x, z]
            else:  # common factor sqrt(5/4pi) left out
                Y = [np.sqrt(3 / 8) * q * q, np.sqrt(3 / 2) * q * z, (3 * z * z - 1) / 2, -np.sqrt(3 / 2) * p * z, np.sqrt(3 / 8) * p * p]
                s3 = np.sqrt(3)
                want = [(3 * z * z - 1) / 2, s3 / 2 * (x * x - y * y), s3 * y * z, s3 * x * z, s3 * x * y]
            for b in blocks:
                got = np.array(Y) @ b
                for j in range(d):
                    # a real orbital is defined up to its sign
                    need(abs(got[j].imag) < 1e-12, "harmonic", j, "is not real at", (x, y, z))
                    need(min(abs(got[j] - want[j]), abs(got[j] + want[j])) < 1e-12, "harmonic", j, "of l =", l, "at", (x, y, z), "is", got[j], "expected +-", want[j])
                    res.transitions += 1
            res.states += 1
        res.traces = 1
        res.outcomes = {"cubic"}
    return res
