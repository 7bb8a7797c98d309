"""Reference many-body model of the run scripts: Hamiltonian terms by label, indices, restrictions."""

import numpy as np

from mc import wigner

CF_DEFAULT = dict(e_imp=-1.31796, e_deltaO_imp=0.60422, e_val_eg=-4.4, e_val_t2g=-6.5, e_con_eg=3, e_con_t2g=2, v_val_eg=1.883, v_val_t2g=1.395,
                  v_con_eg=0.6, v_con_t2g=0.4)


def labels(nBaths):
    out = [(l, s, m) for l in nBaths for s in range(2) for m in range(-l, l + 1)]
    return out + [(l, b) for l, n in nBaths.items() for b in range(n)]


def pos(nBaths):
    return {lab: i for i, lab in enumerate(labels(nBaths))}


def dc(n3d, c, Fdd, Fpd, Gpd):
    udd = Fdd[0] - 2 / 63 * (Fdd[2] + Fdd[4])
    upd = Fpd[0] - Gpd[1] / 15 - 3 / 70 * Gpd[3]
    return {2: n3d * udd + 6 * upd - c, 1: (n3d + 1) * upd - c}


def impurity(Fdd, Fpp, Fpd, Gpd, xi_2p, xi_3d, n3d, c, hField):
    """Everything but the non-interacting operator: (two-body, one-body), by label."""
    two = wigner.u2p3d(Fdd, Fpp, Fpd, Gpd)
    d = dc(n3d, c, Fdd, Fpd, Gpd)
    count = {(((l, s, m), "c"), ((l, s, m), "a")): -d[l] for l in (1, 2) for s in range(2) for m in range(-l, l + 1)}
    one = wigner.add(wigner.soc(xi_2p, 1), wigner.soc(xi_3d, 2), wigner.field(*hField, 2), count)
    return two, one


def cubic():
    """Columns: 3z2-r2, x2-y2, yz, xz, xy in Y_2m (Condon-Shortley), signs irrelevant here."""
    s = np.sqrt(0.5)
    u = np.zeros((5, 5), dtype=complex)
    u[2, 0] = 1
    u[[0, 4], 1] = s
    u[[1, 3], 2] = 1j * s
    u[1, 3], u[3, 3] = s, -s
    u[0, 4], u[4, 4] = 1j * s, -1j * s
    return u


def cf_h0(nBaths, par):
    """Crystal-field operator by label in the gauge 'bath = conjugate cubic orbitals rotated to spherical'."""
    p = dict(CF_DEFAULT)
    p.update(par)
    u = cubic()

    def diag(eg, t2g):
        return u @ np.diag([eg, eg, t2g, t2g, t2g]) @ u.conj().T

    op = {}

    def put(f, g, h):
        for s in range(2):
            for i in range(5):
                for j in range(5):
                    if abs(h[i, j]) > 1e-14:
                        k = (f(s, i), "c"), (g(s, j), "a")
                        op[k] = op.get(k, 0) + h[i, j]

    imp = lambda s, i: (2, s, i - 2)  # noqa: E731
    put(imp, imp, diag(p["e_imp"] + 0.6 * p["e_deltaO_imp"], p["e_imp"] - 0.4 * p["e_deltaO_imp"]))
    sets = [("val", 0)] + ([("con", 10)] if nBaths[2] == 20 else [])
    for name, off in sets:
        bath = lambda s, i, off=off: (2, off + 5 * s + i)  # noqa: E731
        put(bath, bath, diag(p["e_%s_eg" % name], p["e_%s_t2g" % name]))
        v = diag(p["v_%s_eg" % name], p["v_%s_t2g" % name])
        put(bath, imp, v)
        put(imp, bath, v)
    return op


def one_matrix(op, index):
    h = np.zeros((len(index),) * 2, dtype=complex)
    for (a, b), v in op.items():
        h[index[a[0]], index[b[0]]] += v
    return h


def split(op):
    """one-body and two-body parts of an operator, None for anything else."""
    one = {p: v for p, v in op.items() if len(p) == 2}
    two = {p: v for p, v in op.items() if len(p) == 4}
    return one, two, len(one) + len(two) == len(op)


def restrictions(nBaths, nVal, n0, dnTol, dnVal, dnCon):
    """Documented occupation limits of excited states (3d shell, its valence and conduction bath)."""
    ix = pos(nBaths)
    imp = tuple(ix[2, s, m] for s in range(2) for m in range(-2, 3))
    val = tuple(ix[2, b] for b in range(nVal))
    con = tuple(ix[2, b] for b in range(nVal, nBaths[2]))
    r = {imp: (n0 - 1, n0 + dnTol + 1)}
    if val:
        r[val] = (nVal - dnVal, nVal)
    if con:
        r[con] = (0, dnCon)
    return r
