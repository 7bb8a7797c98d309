"""C28: no hidden state, no changed input.

Every public calculation of the package is one operation on a pool of shared argument
objects (two systems of different size whose product states have the same bytes). All
sequences of two operations (thorough: three, the first two from one operation per family) are executed, each in a process of its own,
in these regimes: both operations on the same objects; (thorough only) the second on the
objects of the other system; and with all argument containers refilled in place with the
other system between the operations. Moreover every operation is executed three times with a single
argument exchanged in between (in the same or in a new object) and then back, for every argument it
uses. After each operation the arguments must be what
they were (except the stores documented as in/out, which stay and are reused), its result
is overwritten, and the last operation's result must equal what it is in a fresh
process. Look-up tables given to several operations are kept, as the run scripts do.
"""

import contextlib
import copy
import io
import json
import os
import pickle
import tempfile
import traceback
from collections import OrderedDict

import numpy as np

from mc import ref
from mc.harness import Result, Violation, need

ID = "C28"
MEANING = "states: (regime, sequence of operations); transitions: operations executed; traces: sequences executed in fresh processes"
ASSUMPTIONS = ["results are compared with a relative tolerance of 1e-7, eigenstates up to a phase"]
REGIMES = ["same", "other", "refill"]
CHUNK = 1
TIMEOUT = 850


def BOUNDS(tier):
    return dict(operations=len(OPS), sequence_length=2 if tier == "quick" else 3, families=len(FAMILIES), regimes=REGIMES if tier == "thorough" else REGIMES[::2], single_arguments="every one, several other contents")


def cases(tier):
    out = [[r, [i]] for r in (REGIMES if tier == "thorough" else REGIMES[::2]) for i in range(len(OPS))]
    out += [["argument", i] for i in range(len(OPS))]
    if tier == "thorough":
        # the first two from one operation per family, the last one any
        first = [i for i, o in enumerate(OPS) if o.name in FAMILIES]
        assert len(first) == len(FAMILIES)
        out += [[r, [i, j]] for r in REGIMES for i in first for j in first]
    return out


FAMILIES = {"conversions", "c2i and i2c", "getSz3d", "applyOp store=1 restrictions=1", "applyOp with a kept store", "expand_basis", "expand_basis_and_hamiltonian serial kept store",
            "expand_basis_and_hamiltonian H_build kept store", "get_hamiltonian_matrix sparse_MPI", "eigensystem Lanczos", "getGreen kept store", "getGreen defaults", "getSpectra H_build",
            "getRIXSmap H_build_wIn", "getRIXSmap kept store", "printThermalExpValues", "transition operators", "NIXS operators", "same file name"}

# ---- the pool


def content(k):
    """Plain description of the arguments of system k."""
    nBaths = OrderedDict([(1, 0), (2, 2 + k)])
    n = 16 + 2 + k
    ix = {lab: i for i, lab in enumerate([(l, s, m) for l in (1, 2) for s in range(2) for m in range(-l, l + 1)] + [(2, b) for b in range(2 + k)])}
    d = [ix[2, s, m] for s in range(2) for m in range(-2, 3)]
    p = [ix[1, s, m] for s in range(2) for m in range(-1, 2)]
    op = {}

    def put(a, b, v):
        op[((a, "c"), (b, "a"))] = op.get(((a, "c"), (b, "a")), 0) + v
        if a != b:
            op[((b, "c"), (a, "a"))] = op.get(((b, "c"), (a, "a")), 0) + np.conj(v)

    for i, o in enumerate(p):
        put(o, o, -9 + 0.31 * i + k)
    put(p[0], p[4], 0.4 + 0.1j * (k + 1))
    for i, o in enumerate(d):
        put(o, o, 0.17 * i * (1 + 0.3 * k) - 0.013 * i * i)
    put(d[0], d[9], 0.2 - 0.05j)
    put(d[3], d[4 + k], 0.15j)
    for b in range(2 + k):
        put(ix[2, b], ix[2, b], -1.5 + 0.4 * b + 0.1 * k)
        put(ix[2, b], d[2 * b + k], 0.6 + 0.2j * k)
    op[((d[1], "c"), (d[6], "c"), (d[6], "a"), (d[1], "a"))] = 1.3 + k
    op[((d[2], "c"), (d[7], "c"), (d[7], "a"), (d[2], "a"))] = 0.9
    op[((p[1], "c"), (d[1], "c"), (d[1], "a"), (p[1], "a"))] = 0.7 + 0.2 * k
    enc = lambda orbs: ref.enc(ref.mask_of(orbs), n)  # noqa: E731
    # filled p shell, and one electron
    g = [enc(p + [o]) for o in d[:4] + [d[9]]]
    psis = [{g[0]: 0.8, g[1]: 0.6j}, {g[2]: 0.5 + 0.5j, g[3]: -0.5, g[4]: 0.5}]
    if k:
        psis = [{g[1]: 0.6, g[3]: 0.8}, {g[0]: 0.5, g[2]: -0.5j, g[4]: np.sqrt(0.5)}, {g[1]: 0.8j, g[3]: -0.6j}]
    restr = {frozenset(d): (0, 2), frozenset(ix[2, b] for b in range(2 + k)): (0, 1)}
    r = np.linspace(0, 5, 60 + k)
    R = r**2 * np.exp(-(1.3 + 0.2 * k) * r)
    R2 = r * np.exp(-(0.9 + 0.1 * k) * r)
    return dict(
        nBaths=nBaths, n=[n], hOp=op, psis=psis, es=[-0.3 - 0.1 * k + 0.05 * i for i in range(len(psis))], restrictions=restr, w=np.linspace(-3, 4, 9 + k), wIn=np.linspace(6, 10, 3),
        wLoss=np.linspace(-1, 2, 5), eps=[[1, 0, 0], [0.6, 0, 0.8]] if not k else [[0, 1, 0], [0, 0.8, -0.6]], qs=[np.array([0.5, 1.0, 2.0 - k])], r=r, R=R, R2=R2,
        tOps=[{((d[1], "c"), (p[2], "a")): 0.5, ((d[6], "c"), (p[5], "a")): -0.25j}, {((d[2], "c"), (p[k], "a")): 1.0}],
        tOut=[{((p[2], "c"), (d[1], "a")): 0.5}, {((p[3 + k], "c"), (d[5], "a")): 0.5, ((p[0], "c"), (d[0], "a")): 1j}], orbs=d[: 3 + k], states=g,
        valBaths=OrderedDict([(1, 0), (2, 1 + k)]), dnVal=OrderedDict([(1, 0), (2, 1)]), dnCon=OrderedDict([(1, 0), (2, 1 - k)]), dnTol=OrderedDict([(1, 0), (2, 1)]), n0=OrderedDict([(1, 6), (2, 1)]),
        F=[[5.0 + k, 0, 4.0, 0, 2.5], [1.0, 0, 0.5 + k], [3.0, 0, 2.0 + k], [0, 1.5, 0, 0.8 + k]], xi=[8.0 + k, 0.3], h=[0.1, -0.2, 0.3 + k], obs=np.arange(2.0 + k) * (1 - 2j), delta=0.3, delta1=0.4, size=8, cut=1e-12, T=1500.0, states_wanted=3, h0={((x, "c"), (x, "a")): -0.5 * i + 0.1 * k for i, x in enumerate([(2, 0, 0), (2, 1, 1), (2, 0)])}, cf=dict(e_imp=-1.0 - k, e_deltaO_imp=0.7), energies=np.array([-0.3 - 0.1 * k + 0.05 * i for i in range(len(psis))]),
    )


def variants(c):
    """name -> other contents of one argument of the system c, everything else unchanged."""

    def but(x, **items):
        x = copy.deepcopy(x)
        for path, v in items["at"]:
            y = x
            for i in path[:-1]:
                y = y[i]
            y[path[-1]] = v
        return x

    op, ps = c["hOp"], c["psis"]
    diag = [p for p in op if len(p) == 2 and p[0][0] == p[1][0]]
    off = [p for p in op if len(p) == 2 and p[0][0] != p[1][0]]
    pair = ((off[0][1][0], "c"), (off[0][0][0], "a"))
    inter = [p for p in op if len(p) == 4]
    out = dict(
        hOp=[but(op, at=[((diag[8],), op[diag[8]] + 0.4)]), but(op, at=[((off[0],), 1j * op[off[0]]), ((pair,), -1j * op[pair])]), {k: v for k, v in op.items() if k != inter[0]}],
        psis=[ps[::-1], [{k: 1j * v if i else v for i, (k, v) in enumerate(q.items())} for q in ps], [dict(zip(q, reversed(list(q.values())))) for q in ps]],
        es=[[e + 0.2 for e in c["es"]], [e + 0.02 * i for i, e in enumerate(c["es"])]],
        energies=[c["energies"] + 0.2, c["energies"] + 0.02 * np.arange(len(c["energies"]))],
        restrictions=[{k: (a, b - 1) for k, (a, b) in c["restrictions"].items()}, {k: (min(1, i), b) for i, (k, (a, b)) in enumerate(c["restrictions"].items())}],
        eps=[but(c["eps"], at=[((1,), [0.6, 0.8, 0])]), but(c["eps"], at=[((0,), [1j, 0, 0])])],
        qs=[[np.array([2.0, 1.0, 0.5])], [np.array([0.5, 1.0, -2.0])], [0.5 * q for q in c["qs"]]],
        tOps=[but(c["tOps"], at=[((0, k), v + 0.3) for k, v in list(c["tOps"][0].items())[:1]]), c["tOps"][::-1]], tOut=[but(c["tOut"], at=[((0, k), v + 0.3) for k, v in list(c["tOut"][0].items())[:1]]), c["tOut"][::-1]],
        orbs=[c["orbs"][::-1]], states=[c["states"][::-1], c["states"][2:] + c["states"][:2]],
        nBaths=[OrderedDict([(1, 0), (2, 3)]), OrderedDict([(2, 2), (1, 0)]), OrderedDict([(1, 1), (2, 1)])],
        valBaths=[OrderedDict([(1, 0), (2, 2)])], dnVal=[OrderedDict([(1, 0), (2, 0)])], dnCon=[OrderedDict([(1, 0), (2, 0)])], dnTol=[OrderedDict([(1, 0), (2, 0)])], n0=[OrderedDict([(1, 6), (2, 2)]), OrderedDict([(1, 5), (2, 1)])],
        F=[but(c["F"], at=[((i, j), c["F"][i][j] + 0.6)]) for i, j in ((0, 2), (0, 0), (1, 2), (2, 0), (2, 2), (3, 1), (3, 3))], xi=[but(c["xi"], at=[((i,), 0.7)]) for i in (0, 1)],
        h=[but(c["h"], at=[((i,), 0.7)]) for i in range(3)], obs=[c["obs"] * 2 + 1], delta=[0.5, -0.3], delta1=[0.7], size=[3], cut=[0.2], T=[500.0], states_wanted=[2],
        h0=[but(c["h0"], at=[((k,), v + 0.3)]) for k, v in list(c["h0"].items())[:1]], cf=[dict(c["cf"], e_imp=-2.2), dict(c["cf"], v_val_eg=1.0)],
    )
    for k in ("w", "wIn", "wLoss", "r", "R", "R2"):
        x = c[k]
        inside = x.copy()
        inside[1] += 0.3 * (x[2] - x[1]) + (0.01 if k[0] == "R" else 0)
        out[k] = [1.2 * x + 0.01, inside]
    return out


def refill(obj, new):
    """Give the container obj the content of new, in place wherever possible."""
    if isinstance(obj, dict):
        keep = dict(obj)
        obj.clear()
        for k, v in new.items():
            obj[k] = refill(keep[k], v) if k in keep else v
        return obj
    if isinstance(obj, list):
        keep = list(obj)
        obj[:] = [refill(keep[i], v) if i < len(keep) else v for i, v in enumerate(new)]
        return obj
    if isinstance(obj, np.ndarray) and obj.shape == np.shape(new) and obj.dtype == np.asarray(new).dtype:
        obj[...] = new
        return obj
    return new


class Pool:
    def __init__(self, k):
        self.__dict__.update(content(k))
        self.names = list(content(k))
        self.k = k
        self.store()

    def store(self):
        """The look-up tables that are documented as in/out."""
        self.h_dict, self.h_dict_b, self.h_ground, self.t_big, self.green = {}, {}, {}, {}, {}

    def become(self, k):
        new = content(k)
        for name in self.names:
            setattr(self, name, refill(getattr(self, name), new[name]))
        self.k = k
        for t in (self.h_dict, self.h_dict_b, self.h_ground, self.t_big, self.green):
            t.clear()

    def change(self, name, value, place):
        """Another content of one argument, in the same or in a new object."""
        value = copy.deepcopy(value)
        setattr(self, name, refill(getattr(self, name), value) if place else value)
        for t in (self.h_dict, self.h_dict_b, self.h_ground, self.t_big, self.green):
            t.clear()

    def print(self):
        return [(name, plain(getattr(self, name))) for name in self.names]


def plain(x):
    """Comparable copy."""
    if isinstance(x, dict):
        return ("dict", [(plain(k), plain(v)) for k, v in sorted(x.items(), key=lambda kv: str(key(kv[0])))])
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(plain(v) for v in x))
    if hasattr(x, "toarray"):
        return np.array(x.toarray())
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "to01"):
        return x.to01()
    return x


def key(x):
    return sorted(x) if isinstance(x, (set, frozenset)) else x


def differ(a, b, tol, where=""):
    """None, or what differs."""
    if isinstance(a, tuple) and len(a) == 2 and a[0] in ("dict", "set"):
        if not (isinstance(b, tuple) and len(b) == 2 and b[0] == a[0]):
            return f"{where}: {b!r:.80} instead of {a!r:.80}"
        return differ(a[1], b[1], tol, where)
    if isinstance(a, (list, tuple)) and not isinstance(b, np.ndarray):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f"{where}: {b!r:.80} instead of {a!r:.80}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, f"{where}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return f"{where}: shape {np.shape(b)} instead of {np.shape(a)}"
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "OSU":
            return None if np.array_equal(a, b) else f"{where}: {b!r:.80} instead of {a!r:.80}"
        s = np.abs(a).max(initial=0) * tol + (1e-10 if tol else 0)
        bad = ~(np.abs(a - b) <= s)
        return f"{where}: {b[bad][0]} instead of {a[bad][0]}" if bad.any() else None
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return None if abs(a - b) <= tol * abs(a) + (1e-10 if tol else 0) else f"{where}: {b} instead of {a}"
    return None if a == b else f"{where}: {b!r:.80} instead of {a!r:.80}"


def spoil(x, depth=0):
    """Overwrite a result: nobody may still need it."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fc":
            x[...] = 7.77
    elif hasattr(x, "data") and hasattr(x, "tocsr"):
        if isinstance(x.data, np.ndarray):
            x.data[...] = 7.77
    elif hasattr(x, "setall"):
        x.setall(1)


# ---- the operations


class Op:
    def __init__(self, name, fn, slow=False, after=None):
        self.name, self.fn, self.slow, self.after = name, fn, slow, after


def F():
    from impurityModel.ed import finite

    return finite


def S():
    from impurityModel.ed import spectra

    return spectra


def conversions(p):
    from impurityModel.ed import product_state_representation as psr

    n, out = p.n[0], []
    for b in p.states:
        bits = psr.bytes2bitarray(b, n)
        out += [bits, psr.bytes2tuple(b, n), psr.bytes2str(b, n), psr.bytes2int(b, n), psr.tuple2bytes(psr.bytes2tuple(b, n), n), psr.int2bytes(psr.bytes2int(b, n), n), psr.str2bytes(psr.bytes2str(b, n))]
        out += [psr.int2bitarray(psr.bytes2int(b, n), n), psr.tuple2bitarray(psr.bytes2tuple(b, n), n), psr.str2bitarray(psr.bytes2str(b, n)), psr.tuple2int(psr.bytes2tuple(b, n), n)]
    return out


def ladder(p):
    from impurityModel.ed import create, remove
    from impurityModel.ed import product_state_representation as psr

    n, out = p.n[0], []
    for b in p.states[:3]:
        for i in (0, 5, 7, 11, n - 1):
            for mod in (create, remove):
                x = psr.bytes2bitarray(b, n)
                amp = mod.ubitarray(i, x)
                out += [amp, x if amp else None, mod.uint(n, i, psr.bytes2int(b, n)), mod.ustr(i, psr.bytes2str(b, n)), mod.utuple(i, psr.bytes2tuple(b, n))]
                res = mod.ubytes(n, i, b)
                out.append(res if res[1] else res[1])
    return out


def every(name, *more):
    return lambda p: [getattr(F(), name)(p.nBaths, psi, *more) for psi in p.psis]


def apply(store, restricted):
    def fn(p):
        r = p.restrictions if restricted else None
        return [F().applyOp(p.n[0], p.hOp, psi, 1e-12, r, {} if store else None) for psi in p.psis]

    return fn


def apply_kept(p):
    return [F().applyOp(p.n[0], p.tOps[0], psi, 1e-12, p.restrictions, p.t_big) for psi in p.psis]


def labels(p):
    f = F()
    lab = [f.i2c(p.nBaths, i) for i in range(p.n[0])]
    return [lab, [f.c2i(p.nBaths, x) for x in lab]]


def eigen(mode):
    def fn(p):
        es, psis = F().eigensystem(p.n[0], p.hOp, tuple(p.states) + more_states(p), p.states_wanted, mode)
        return [np.array(es), [{b: abs(v) ** 2 for b, v in psi.items() if abs(v) > 1e-6} for psi in psis]]

    return fn


def more_states(p):
    return tuple(F().expand_basis(p.n[0], {}, p.hOp, p.states, p.restrictions)[len(p.states) :][:9])


def expand(mode, kept):
    def fn(p):
        h, ix = F().expand_basis_and_hamiltonian(p.n[0], (p.h_dict if mode == "serial" else p.h_dict_b) if kept else {}, p.hOp, tuple(p.states[:2]), p.restrictions, mode)
        return [h, ix]

    return fn


def expand_keys(p):
    """The basis given as a list and as the keys of a state; only the list is an argument that must not grow."""
    f = F()
    start = list(p.states[:2])
    b = f.expand_basis(p.n[0], {}, p.hOp, start, p.restrictions)
    need(start == list(p.states[:2]), "expand_basis changed the list of product states it was given:", start)
    return [list(b), list(f.expand_basis(p.n[0], {}, p.hOp, p.psis[0].keys(), p.restrictions))]


def matrix(mode):
    return lambda p: F().get_hamiltonian_matrix(p.n[0], p.hOp, tuple(p.states) + more_states(p), mode)


def h_dict_matrix(p):
    f = F()
    d = {}
    b = f.expand_basis(p.n[0], d, p.hOp, tuple(p.states[:2]), p.restrictions)
    before = plain(d)
    out = [f.get_hamiltonian_matrix_from_h_dict(d, b), f.get_hamiltonian_matrix_from_h_dict(d, b, mode="dense"), f.get_hamiltonian_matrix_from_h_dict(d, b, "H_build"), f.get_hamiltonian_matrix_from_h_dict(d, b, "H_build", True)]
    need(differ(before, plain(d), 0) is None, "get_hamiltonian_matrix_from_h_dict changed the stored results", differ(before, plain(d), 0))
    return out


def krylov(p):
    f = F()
    h, ix = f.expand_basis_and_hamiltonian(p.n[0], {}, p.hOp, p.psis[0].keys(), p.restrictions)
    v = np.zeros(len(ix), complex)
    for b, x in p.psis[0].items():
        v[ix[b]] = x
    w, before = v.copy(), h.toarray()
    out = [f.get_tridiagonal_krylov_vectors(h, v, 6), f.get_tridiagonal_krylov_vectors(h, v, 6, mode="dense"), f.get_tridiagonal_krylov_vectors(h, v, 6, True)]
    need(np.array_equal(v, w) and np.array_equal(before, h.toarray()), "get_tridiagonal_krylov_vectors changed its arguments")
    return out


def green(mode, par, kept=False):
    def fn(p):
        store = p.green.setdefault(par, {}) if kept else {}
        return [S().getGreen(p.n[0], e, psi, p.hOp, p.w, p.delta, p.size, p.cut, p.restrictions, store, mode, par) for e, psi in zip(p.es, p.psis)]

    return fn


def getspectra(par):
    return lambda p: S().getSpectra(p.n[0], p.hOp, p.tOps, p.psis, p.es, p.w, p.delta, p.restrictions, p.size, p.cut, par)


def green_default(p):
    """All optional arguments left out (twice: a store must not survive)."""
    return [S().getGreen(p.n[0], p.es[0], p.psis[0], p.hOp, p.w, p.delta, p.size, p.cut) for _ in range(2)]


def rixs(par, kept=False):
    def fn(p):
        kw = dict(h_dict_ground=p.h_ground) if kept else {}
        return S().getRIXSmap(p.n[0], p.hOp, p.tOps, p.tOut, p.psis, p.es, p.wIn, p.wLoss, p.delta1, p.delta, p.restrictions, p.size, p.cut, parallelization_mode=par, **kw)

    return fn


def stdout(fn):
    def wrapped(p):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ret = fn(p)
        return [ret, out.getvalue()]

    return wrapped


def table(p):
    return F().printExpValues(p.nBaths, p.energies, p.psis)


def thermal_table(p):
    return F().printThermalExpValues(p.nBaths, p.energies, p.psis, T=p.T)


def thermal(p):
    from impurityModel.ed.average import thermal_average

    return [thermal_average(p.es, p.obs, T=t) for t in (300, p.T)] + [thermal_average(p.es, p.obs), thermal_average(p.es, list(p.es), T=900), thermal_average(p.es, np.outer(p.obs, p.w), T=4000)]


def algebra(p):
    f = F()
    a, b = p.psis[0], p.psis[1]
    c = dict(a)
    f.addToFirst(c, b, 2 - 1j)
    f.assert_hermitian(p.hOp)
    return [f.add(a, b), f.add(a, b, 3j), c, f.inner(a, b), f.inner(a, a), f.norm2(b), f.daggerOp(p.hOp), f.addOps([p.hOp, p.tOps[0], p.hOp]), f.addOps([p.tOps[1]]), f.a(p.n[0], 7, a), f.c(p.n[0], 12, a)]


def degenerate(p):
    """Arguments for which the answer equals one of them: it is still an object of its own."""
    from impurityModel.ed.average import thermal_average

    f = F()
    n, a, op = p.n[0], p.psis[0], p.tOps[0]
    c = dict(a)
    f.addToFirst(c, {})
    f.addToFirst(c, a, 0)
    return [f.add(a, {}), f.add({}, a), f.add(a, p.psis[1], 0), f.add(a, {}, 2), c, f.addOps([op]), f.addOps([op, {}]), f.addOps([{}, op]), f.addOps([]), f.daggerOp({}), f.daggerOp(p.hOp), f.applyOp(n, {(): 1}, a), f.applyOp(n, {(): 1}, a, opResult={}),
            f.applyOp(n, {}, a), f.applyOp(n, op, {}), f.applyOp(n, {}, {}), f.a(n, 7, {}), f.c(n, 12, {}), f.inner(a, {}), f.norm2({}),
            thermal_average(list(p.es)[:1], np.array(p.obs)[:1]), thermal_average([0.0], [p.obs]), thermal_average([1.0, 1.0], [p.obs, p.obs], T=p.T)]


def coulomb(p):
    f = F()
    Fdd, Fpp, Fpd, Gpd = p.F
    return [f.getUop(1, 1, 1, 1, Fpp), f.getUop(1, 2, 2, 1, Fpd), f.getUop(1, 2, 1, 2, Gpd), f.getNoSpinUop(1, 1, 1, 1, Fpp), [f.getU(2, 1, 2, 0, 2, 0, 2, 1, Fdd), f.getU(2, 1, 2, 0, 2, 1, 2, 0, Fdd)],
            [f.gauntC(k, 2, m, 1, m2) for k in (1, 3) for m in (-1, 2) for m2 in (0, 1)], [f.gauntC(k, 2, 1, 2, 1) for k in (0, 2, 4)]]


def full_coulomb(p):
    return F().get2p3dSlaterCondonUop(*p.F)


def small_terms(p):
    f = F()
    return [f.getSOCop(p.xi[0], l=1), f.getSOCop(p.xi[1]), f.gethHfieldop(*p.h), f.gethHfieldop(*p.h, l=1), f.dc_MLFT(8, 1.5, p.F[0]), f.dc_MLFT(n3d_i=1, c=0.5, Fdd=p.F[0], n2p_i=6, Fpd=p.F[2], Gpd=p.F[3]),
            f.get_spherical_2_cubic_matrix(), f.get_spherical_2_cubic_matrix(True), f.get_spherical_2_cubic_matrix(l=1), f.get_spherical_2_cubic_matrix(spinpol=True, l=1)]


def jobs(p):
    f = F()
    return [f.get_job_tasks(r, size, range(n)) for size in (1, 2, 3) for r in range(size) for n in (0, 2, 5)] + [f.get_job_tasks(1, 2, p.orbs)]


def basis(p):
    return list(F().get_basis(p.nBaths, p.valBaths, p.dnVal, p.dnCon, p.dnTol, p.n0))


def transition(p):
    s = S()
    return [s.getDipoleOperators(p.nBaths, p.eps), s.getDaggeredDipoleOperators(p.nBaths, p.eps), s.getDipoleOperator(p.nBaths, p.eps[1]), s.getPhotoEmissionOperators(p.nBaths), s.getPhotoEmissionOperators(p.nBaths, l=1),
            s.getInversePhotoEmissionOperators(p.nBaths), s.getInversePhotoEmissionOperators(p.nBaths, l=1)]


def nixs(p):
    s = S()
    return [s.getNIXSOperators(p.nBaths, p.qs, 2, 2, p.R, p.R2, p.r), s.getNIXSOperators(p.nBaths, p.qs, 2, 1, p.R, p.R2, p.r), s.getNIXSOperators(p.nBaths, p.qs, 2, 2, p.R, p.R2, p.r, kmin=0), s.getNIXSOperator(p.nBaths, p.qs[0], 2, 2, p.R, p.R2, p.r)]


def gather(p):
    from impurityModel.ed.mpi_comm import allgather_dict, dict_chunks_from_one_MPI_rank

    out = []
    for chunk in (1, 2, 100):
        t = {b"x": 1}
        allgather_dict(p.psis[0], t, chunk)
        out += [t, list(dict_chunks_from_one_MPI_rank(p.psis[1], chunk))]
    return out


def stored_hamiltonian(p):
    from impurityModel.ed.get_spectra import get_hamiltonian_operator

    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "h0.pickle")
        with open(path, "wb") as fh:
            pickle.dump(p.h0, fh)
        return get_hamiltonian_operator(p.nBaths, p.valBaths, p.F, p.xi, [p.n0, 1.5], p.h, path)


def same_file(p):
    """Another content under the same file name."""
    from impurityModel.ed.get_spectra import read_pickled_file
    from impurityModel.ed.get_spectra_using_CF import read_h0_CF_file

    path = os.path.join(_dir[0], "h0")
    try:
        with open(path, "wb") as fh:
            pickle.dump({"k": p.k}, fh)
        a = read_pickled_file(path)
        with open(path, "w") as fh:
            fh.write('{"e_imp": %d, "v_con_eg": 0}' % (p.k + 3))
        return [a, list(read_h0_CF_file(path))]
    finally:
        os.unlink(path)


def crystal_field(p):
    from impurityModel.ed.get_spectra_using_CF import get_CF_hamiltonian

    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "h0.json")
        with open(path, "w") as fh:
            fh.write(json.dumps(p.cf))
        return [get_CF_hamiltonian(OrderedDict([(1, 0), (2, n)]), OrderedDict([(1, 0), (2, 10)]), path, b) for n in (10, 20) for b in ("spherical", "cubic")]


def simulate(p):
    import h5py

    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            S().simulate_spectra(tuple(p.es), tuple(p.psis), p.hOp, p.T, p.w, p.delta, p.eps, p.wLoss, p.delta, p.qs, 2, 2, p.R, p.R2, p.r, p.wIn, p.delta1 / 2, p.eps, p.eps, p.restrictions, h5py.File("spectra.h5", "w"), p.nBaths)
            with h5py.File("spectra.h5") as f:
                out = {k: np.array(f[k]) for k in f}
            for n in ("PS", "XPS", "NIXS", "XAS"):
                out[n + ".dat"] = np.loadtxt(n + ".dat")
            out["RIXS.bin"] = np.fromfile("RIXS.bin", np.float32).astype(float)
            return out
        finally:
            os.chdir(old)


OPS = [Op("conversions", conversions), Op("create and remove", ladder), Op("c2i and i2c", labels)]
OPS += [Op(x, every(x)) for x in ("getLz3d", "getSz3d", "getSsqr3d", "getLsqr3d", "getTraceDensityMatrix", "getDensityMatrix", "getDensityMatrixCubic", "getEgT2gOccupation", "applySz3d", "applyLz3d", "applySplus3d",
                                   "applySminus3d", "applyLplus3d", "applyLminus3d")]
OPS += [Op("getDensityMatrix l=1", every("getDensityMatrix", 1)), Op("getTraceDensityMatrix l=1", every("getTraceDensityMatrix", 1))]
OPS += [Op("applyOp store=%d restrictions=%d" % (a, b), apply(a, b)) for a in (0, 1) for b in (0, 1)]
OPS += [Op("applyOp with a kept store", apply_kept), Op("operator and state algebra", algebra), Op("algebra with empty and single arguments", degenerate), Op("get_job_tasks", jobs), Op("get_basis", basis), Op("expand_basis", expand_keys)]
OPS += [Op("expand_basis_and_hamiltonian %s %s" % (m, "kept store" if k else "new store"), expand(m, k)) for m in ("serial", "H_build") for k in (0, 1)]
OPS += [Op("get_hamiltonian_matrix " + m, matrix(m)) for m in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI")]
OPS += [Op("get_hamiltonian_matrix_from_h_dict", h_dict_matrix), Op("eigensystem full", eigen("full")), Op("eigensystem Lanczos", eigen("Lanczos")), Op("get_tridiagonal_krylov_vectors", krylov)]
OPS += [Op("getGreen dict", green("dict", "serial")), Op("getGreen dense", green("dense", "serial")), Op("getGreen sparse", green("sparse", "serial")), Op("getGreen H_build", green("sparse", "H_build")),
        Op("getGreen kept store", green("sparse", "serial", True)), Op("getGreen H_build kept store", green("sparse", "H_build", True)), Op("getGreen defaults", green_default)]
OPS += [Op("getSpectra " + m, getspectra(m)) for m in ("eigen_states", "H_build")]
OPS += [Op("getRIXSmap " + m, rixs(m)) for m in ("serial", "H_build", "wIn", "H_build_wIn")] + [Op("getRIXSmap kept store", rixs("serial", True))]
OPS += [Op("thermal_average", thermal), Op("printExpValues", stdout(table)), Op("printThermalExpValues", stdout(thermal_table)), Op("Coulomb terms", coulomb), Op("one-body terms", small_terms), Op("transition operators", transition),
        Op("NIXS operators", nixs), Op("gathering", gather), Op("same file name", same_file), Op("crystal-field operator", crystal_field)]
OPS += [Op("full Coulomb operator", full_coulomb, slow=True), Op("Hamiltonian of the run script", stored_hamiltonian, slow=True), Op("simulate_spectra", simulate, slow=True)]


# ---- execution in processes of their own


def forked(fn):
    """fn() in a child; returns what it returns."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:
                out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process died with status %d" % status)
    return pickle.loads(data)


def perform(op, p, where):
    """One operation: returns a copy of its result, spoils the result, checks the arguments."""
    before = p.print()
    with contextlib.redirect_stdout(io.StringIO()) if op.fn.__name__ != "wrapped" else contextlib.nullcontext():
        got = op.fn(p)
    out = plain(got)
    spoil(got)
    d = differ(before, p.print(), 0)
    need(d is None, where, "changed an argument" + ("" if d is None else " (%s)" % d))
    return out


_solo = {}
_dir = [None]


def fresh(j, k):
    if (j, k) not in _solo:
        _solo[j, k] = forked(lambda: perform(OPS[j], Pool(k), OPS[j].name + " alone"))
    kind, val = _solo[j, k]
    need(kind == "ok", OPS[j].name, "in a fresh process:", val)
    return val


class Watched(Pool):
    """Notes which arguments are used."""

    def __getattribute__(self, name):
        get = super().__getattribute__
        if name in get("names"):
            get("used").add(name)
        return get(name)

    names, used = (), set()


def used(j):
    p = Watched(0)
    p.used = set()
    with contextlib.redirect_stdout(io.StringIO()):
        OPS[j].fn(p)
    return sorted(p.used)


def one_argument(j):
    """The operation twice, with one argument exchanged, then again with the first one."""
    warm()
    res = Result()
    op = OPS[j]
    kind, names = forked(lambda: used(j))
    need(kind == "ok", op.name, "alone:", names)
    first = fresh(j, 0)
    other = variants(content(0))
    for name in names:
        need(name in other or name == "n", "no other content for", name)
        for v, value in enumerate(other.get(name, [])):

            def changed():
                p = Pool(0)
                p.change(name, value, False)
                return perform(op, p, op.name + " alone")

            kind, want = forked(changed)
            if kind != "ok" or differ(first, want, 1e-7) is None:
                res.outcomes.add("not used" if kind == "ok" else "refused")
                continue
            for place in (True, False):
                w = f"{op.name} with another {name} ({'in the same object' if place else 'in a new object'}, number {v})"

                def sequence():
                    p = Pool(0)
                    perform(op, p, op.name)
                    p.change(name, value, place)
                    a = perform(op, p, w)
                    p.change(name, content(0)[name], place)
                    return a, perform(op, p, w + " and then with the first one")

                kind, got = forked(sequence)
                need(kind == "ok", w, got)
                for x, y, what in ((want, got[0], "gives"), (first, got[1], "and then with the first one gives")):
                    d = differ(x, y, 1e-7)
                    need(d is None, w, what, "another result than in a fresh process:", d)
                res.states += 1
                res.traces += 1
                res.transitions += 3
                res.outcomes.add("one argument")
    return res


def warm():
    """Import the code under test, execute none of it."""
    from impurityModel.ed import average, create, finite, get_spectra, get_spectra_using_CF, mpi_comm, remove, spectra  # noqa: F401
    import h5py  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import tempfile  # noqa: F401


def run(case):
    with tempfile.TemporaryDirectory(prefix="mc-seq-") as _dir[0]:
        return one_argument(case[1]) if case[0] == "argument" else sequences(*case)


def sequences(regime, prefix):
    warm()
    res = Result()
    names = [OPS[i].name for i in prefix]
    slow = any(OPS[i].slow for i in prefix)
    targets = [j for j in range(len(OPS)) if not (OPS[j].slow and slow and len(prefix) > 1)]
    want = [{j: fresh(j, k) for j in targets} for k in ((0, 1) if regime != "same" else (0,))]

    def branch():
        pools = [Pool(0), Pool(1) if regime == "other" else None]
        p, k = pools[0], 0
        for i in prefix:
            perform(OPS[i], p, f"{regime}: {OPS[i].name}")
            # to the objects or the content of the next operation
            if regime == "other":
                k = 1 - k
                p = pools[k]
            elif regime == "refill":
                k = 1 - k
                p.become(k)
        bad = []
        for j in targets:
            kind, val = forked(lambda j=j: perform(OPS[j], p, f"{regime}: {OPS[j].name} after {names}"))
            if kind != "ok":
                bad.append((j, val))
            else:
                d = differ(want[k][j], val, 1e-7)
                if d:
                    bad.append((j, "gives another result than in a fresh process: " + d))
        return bad

    kind, bad = forked(branch)
    need(kind == "ok", regime, names, bad)
    need(not bad, f"regime {regime}, after {names}:", *["%s: %s" % (OPS[j].name, m) for j, m in bad[:3]])
    res.states += len(targets)
    res.traces += len(targets)
    res.transitions += len(targets) * (len(prefix) + 1)
    res.outcomes.add(regime)
    return res
