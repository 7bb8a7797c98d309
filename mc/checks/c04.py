"""C04: stored operator results are transparent.

Explicit exploration of call histories: every sequence of up to 4 (quick: 3)
events on one shared store, where an event applies the operator to one of 7
states (product states and superpositions that overlap each other), under one of
several restriction settings, optionally after the caller has modified the state it
got back from the previous call. After each event the answer is compared with the
exact model and the whole store with the exact action on every product state acted
upon so far. Histories also run on lattices of up to 130 spin-orbitals, with hundreds of processes
and product states and up to five restrictions. Histories also start from prefilled stores. A second family replays all histories
of Green's functions sharing one stored Hamiltonian.
"""

import itertools

import numpy as np

from mc import ref
from mc.checks.c03 import lattice, patterns
from mc.harness import Result, need

ID = "C04"
N = 5
MEANING = "states: store contents compared; transitions: calls on a shared store; traces: complete histories"

OPS = {
    "hop": {((0, "c"), (1, "a")): 1.0, ((1, "c"), (0, "a")): 1.0, ((1, "c"), (2, "a")): 0.5j, ((2, "c"), (1, "a")): -0.5j, ((2, "c"), (3, "a")): 2.0,
            ((3, "c"), (2, "a")): 2.0, ((0, "c"), (0, "a")): -1.5, ((4, "c"), (0, "a")): 1.0, ((0, "c"), (4, "a")): 1.0},
    "cancel": {((0, "c"), (1, "a")): 1.0, ((0, "c"), (1, "a"), (2, "c"), (2, "a")): -1.0, ((3, "c"), (1, "a")): 0.25, ((1, "c"), (1, "a")): 1.0},
    "add": {((4, "c"),): 1.0 + 1j, ((3, "c"),): -2.0, ((0, "a"),): 0.5},
    "pairs": {((0, "c"), (3, "c"), (2, "a"), (1, "a")): 1.5, ((1, "c"), (2, "c"), (3, "a"), (0, "a")): 1.5j, ((2, "c"), (2, "a")): 1.0, (): 0.5},
}
RESTR = [None, {frozenset([0, 1]): (0, 1)}, {frozenset([3]): (0, 0), frozenset([0, 1, 2]): (1, 2)}]
STATES = [
    {0b00110: 1},
    {0b00011: 1j},
    {0b00110: 0.6, 0b00011: 0.8},
    {0b01110: -0.5, 0b00110: 0.5j, 0b00101: 1.0},
    {0b01001: 2.0, 0b10010: -1.0},
    {0b00000: 1.0, 0b11111: 1.0},
    {0b00101: 0.25, 0b01001: 0.5, 0b00011: -1.0, 0b01110: 1j},
]
# strengths on both sides of the amplitude cut-offs 1e-2 and 1e-1, also when multiplied with the amplitudes below
WEAK = {((2, "c"), (0, "a")): 0.05, ((3, "c"), (0, "a")): 3.0, ((4, "c"), (0, "a")): 0.004, ((3, "c"), (1, "a")): 1.0j, ((2, "c"), (1, "a")): 0.2,
        ((4, "c"), (1, "a")): 0.06, ((0, "c"), (0, "a")): 0.007, ((1, "c"), (1, "a")): -0.5}
WSTATES = [{0b00001: 1.0}, {0b00010: 1.0}, {0b00001: 1e-3, 0b00010: 1.0}, {0b00001: 1.0, 0b00010: 0.05}, {0b00001: 0.15j, 0b00010: -0.2}, {0b00011: 1e-4, 0b00001: 20.0},
           {0b00011: 1.0, 0b00010: 1e-5}]
CUTS = [1e-12, 1e-4, 1e-2]
TAMPER = ["none", "clear", "scale"]


def BOUNDS(tier):
    return dict(history_length=3 if tier == "quick" else 4, operators=list(OPS), restrictions=len(RESTR), states=len(STATES), caller_mutation=TAMPER, cut_offs=CUTS, states_at_cut_offs=len(WSTATES), lattices="10 to 130 spin-orbitals, 20 ordered triples of 5 superpositions",
                prefill="empty, exact result of every single state, of all", green_histories="all sequences of <= %d of 4 start states" % (3 if tier == "quick" else 4))


def cases(tier):
    d = 3 if tier == "quick" else 4
    out = []
    for o in OPS:
        for r in range(len(RESTR)):
            for t in TAMPER:
                for first in range(len(STATES)):
                    out.append(["apply", o, r, t, first, d])
    for o in OPS:
        for r in range(len(RESTR)):
            for pre in range(len(STATES) + 1):
                out.append(["prefill", o, r, pre])
    for cut in range(len(CUTS)):
        for r in range(len(RESTR)):
            for first in range(len(WSTATES)):
                out.append(["cut", cut, r, first, d])
    for n in (10, 40, 130) if tier == "quick" else (10, 40, 70, 130, 300):
        for r in range(4):
            out.append(["lattice", n, r])
    for mode in ("sparse", "dict", "dense", "H_build"):
        for r in range(2):
            for first in range(4):
                out.append(["green", mode, r, first, d])
    return out


def tamper(kind, st):
    if st is None or kind == "none":
        return
    if kind == "clear":
        st.clear()
    else:
        for k in list(st):
            st[k] *= -3
        st[ref.enc(0b10101, N)] = 7


def event(op, restr, s, store, touched):
    from impurityModel.ed.finite import applyOp

    psi = STATES[s]
    r = None if restr is None else {frozenset(k): v for k, v in restr.items()}
    inp = ref.to_code(psi, N)
    got = applyOp(N, dict(op), inp, restrictions=r, opResult=store)
    need(inp == ref.to_code(psi, N), "state modified")
    want = ref.apply(op, psi, restr)
    ok = ref.close(ref.from_code(got, N), want, 1e-9)
    need(ok, "with store, applyOp of state", psi, "gives", got, "expected", want)
    touched.update(psi)
    need(set(store) == {ref.enc(m, N) for m in touched}, "store has keys", sorted(store), "expected", sorted(touched))
    for m in touched:
        col = ref.from_code(store[ref.enc(m, N)], N)
        need(ref.close(col, ref.apply(op, {m: 1}, restr), 1e-9), "store for", ref.occ(m), "is", col)
    return got


def weak_event(restr, psi, store, touched, cut):
    """A call at a cut-off: the answer is built from complete or pruned columns, the store holds pruned or complete columns."""
    from impurityModel.ed.finite import applyOp

    got = ref.from_code(applyOp(N, dict(WEAK), ref.to_code(psi, N), cut, None if restr is None else {frozenset(k): v for k, v in restr.items()}, store), N)
    full = {m: ref.apply(WEAK, {m: 1}, restr) for m in set(psi) | touched}
    pruned = {m: {k: v for k, v in col.items() if abs(v) ** 2 >= cut} for m, col in full.items()}
    hit = False
    for pick in itertools.product((full, pruned), repeat=len(psi)):
        want = {}
        for (m, a), cols in zip(psi.items(), pick):
            for k, v in cols[m].items():
                want[k] = want.get(k, 0) + a * v
        hit |= all(abs(got.get(k, 0) - v) < 1e-10 if k in got or abs(v) ** 2 > cut * 1.0001 else abs(v) ** 2 < cut * 1.0001 for k, v in want.items()) \
            and set(got) <= set(want) and all(abs(v) ** 2 > cut * 0.9999 for v in got.values())
    need(hit, "cut-off", cut, "state", psi, "store of", sorted(touched), ": applyOp gives", got)
    touched.update(psi)
    need(set(store) == {ref.enc(m, N) for m in touched}, "store has keys", sorted(store))
    for m in touched:
        col = ref.from_code(store[ref.enc(m, N)], N)
        need(all(abs(col.get(k, 0) - v) < 1e-10 for k, v in pruned[m].items()) and all(abs(full[m].get(k, 0) - v) < 1e-10 for k, v in col.items()),
             "cut-off", cut, "store for", ref.occ(m), "is", col, "expected", pruned[m])


def run(case):
    res = Result()
    if case[0] == "apply":
        _, o, r, t, first, depth = case
        op, restr = OPS[o], RESTR[r]
        for rest in itertools.product(range(len(STATES)), repeat=depth - 1):
            store, touched, last = {}, set(), None
            for s in (first,) + rest:
                tamper(t, last)
                last = event(op, restr, s, store, touched)
                res.transitions += 1
                res.states += 1
            res.traces += 1
        res.outcomes = {"%s/%d" % (o, r)}
    elif case[0] == "prefill":
        _, o, r, pre = case
        op, restr = OPS[o], RESTR[r]
        for second in range(len(STATES)):
            for third in range(len(STATES)):
                store, touched = {}, set()
                for s in range(len(STATES)):
                    if s == pre or pre == len(STATES):
                        for m in STATES[s]:
                            store[ref.enc(m, N)] = ref.to_code({k: v for k, v in ref.apply(op, {m: 1}, restr).items() if v}, N)
                            touched.add(m)
                event(op, restr, second, store, touched)
                event(op, restr, third, store, touched)
                res.transitions += 2
                res.states += 2
                res.traces += 1
        res.outcomes = {"prefilled"}
    elif case[0] == "cut":
        _, c, r, first, depth = case
        for rest in itertools.product(range(len(WSTATES)), repeat=depth - 1):
            store, touched = {}, set()
            for s in (first,) + rest:
                weak_event(RESTR[r], WSTATES[s], store, touched, CUTS[c])
                res.transitions += 1
                res.states += 1
            res.traces += 1
        res.outcomes = {"cut %g" % CUTS[c]}
    elif case[0] == "lattice":
        from impurityModel.ed.finite import applyOp

        _, n, r = case
        ev = frozenset(range(0, n, 2))
        restr = [None, {ev: (1, max(2, n // 4))}, {ev: (0, n // 3), frozenset(range(n // 2)): (1, n // 2 - 1), frozenset(range(n)): (2, n - 1)},
                 {ev: (0, n // 3), frozenset(range(n // 2)): (1, n // 2), frozenset(range(n // 2, n)): (0, n // 3), frozenset([0, n - 1]): (0, 1), frozenset(range(n)): (2, n - 1)}][r]
        op = lattice(n)
        p = list(patterns(n).items())
        # many states, one of them, a few old ones among new ones, all
        parts = [dict(p[:30]), dict(p[5:6]), dict(p[20:60]), dict(p), {p[-1][0]: 1.0}]
        cols = {m: ref.apply(op, {m: 1}, restr) for m, _ in p}
        for hist in list(itertools.permutations(range(len(parts)), 3))[::3]:
            store, touched = {}, set()
            for s in hist:
                psi = parts[s]
                want = {}
                for m, a in psi.items():
                    for k, v in cols[m].items():
                        want[k] = want.get(k, 0) + a * v
                inp = ref.to_code(psi, n)
                got = applyOp(n, dict(op), inp, restrictions=None if restr is None else dict(restr), opResult=store)
                need(inp == ref.to_code(psi, n), "state modified")
                need(ref.close(ref.from_code(got, n), want, 1e-9), "history", hist, "on a lattice of", n, ": applyOp with a store gives a wrong answer")
                need(set(store) >= {ref.enc(m, n) for m in psi}, "store lacks states of the last call")
                touched.update(psi)
                res.transitions += 1
            need(set(store) == {ref.enc(m, n) for m in touched}, "store has wrong keys")
            for m in touched:
                need(ref.close(ref.from_code(store[ref.enc(m, n)], n), cols[m], 1e-9), "history", hist, "store for", ref.occ(m), "is wrong")
            res.states += len(touched)
            res.traces += 1
        res.outcomes = {"lattice"}
    else:
        from impurityModel.ed.spectra import getGreen

        _, mode, r, first, depth = case
        h = OPS["hop"]
        restr = [None, {frozenset([0, 1]): (0, 1)}][r]
        starts = [{0b01000: 1}, {0b00010: 0.6, 0b01000: 0.8j}, {0b01010: 1}, {0b10000: 0.8, 0b00100: -0.6}]
        om = np.array([-1.0, 0.0, 0.7, 2.5])
        z = om + 0.3j + 0.1
        want = []
        for psi in starts:
            b = sorted(ref.closure(h, psi, restr))
            want.append(ref.resolvent(ref.matrix(h, b, restr), ref.vec(psi, b), z))
        for rest in itertools.product(range(4), repeat=depth - 1):
            hd = {}
            seen = set()
            for s in (first,) + rest:
                g = getGreen(N, 0.1, ref.to_code(starts[s], N), h, om, 0.3, 100, 1e-12, restrictions=restr, h_dict=hd,
                             mode="sparse" if mode == "H_build" else mode, parallelization_mode="H_build" if mode == "H_build" else "serial")
                need(np.allclose(g, want[s], atol=1e-8), "Green's function of start", s, "in history", (first,) + rest, "is", g, "expected", want[s])
                seen |= ref.closure(h, starts[s], restr)
                for m in seen if mode != "dict" else ():
                    need(ref.enc(m, N) in hd, "store lacks", ref.occ(m))
                for k, v in hd.items():
                    need(ref.close(ref.from_code(v, N), ref.apply(h, {ref.dec(k, N): 1}, restr)), "store for", k, "holds", v)
                res.transitions += 1
                res.states += 1
            res.traces += 1
        res.outcomes = {"green " + mode}
    return res
