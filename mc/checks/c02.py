"""C02: creation and annihilation.

Explicit-state search of the Fock graph: starting from the vacuum, every
reachable product state is expanded with the real creation and removal functions
of every representation (2 n transitions per state and representation), the
states found are compared with the model, and the anticommutation relations are
checked on all pairs of transitions. For wide systems the same transitions are
checked on all states with at most two electrons or two holes at the byte and
word boundaries, and multi-configurational states on all pairs of states.
"""

import itertools
from collections import deque

from mc import ref
from mc.harness import Result, need

ID = "C02"
MEANING = "states: (n, product state) expanded; transitions: real create/remove calls compared with the model; traces: two-step words and multi-configurational applications"


def BOUNDS(tier):
    return dict(fock_graph_n="1..%d (complete)" % (8 if tier == "quick" else 10), wide=WIDE, multi="n<=3 all pairs of states, all indices")


WIDE = [9, 15, 16, 17, 26, 31, 32, 33, 63, 64, 65, 116, 128, 129, 200]


def cases(tier):
    top = 8 if tier == "quick" else 10
    out = [["graph", n, r] for n in range(1, top + 1) for r in ("tuple", "str", "int", "bitarray", "bytes")]
    out += [["multi", n] for n in (1, 2, 3, 4)]
    out += [["multiwide", n] for n in (8, 9, 16, 17, 33, 64, 65, 129, 200)]
    for n in WIDE:
        for r in ("tuple", "str", "int", "bitarray", "bytes"):
            out.append(["wide", n, r, 1 if n > 40 and tier == "quick" else 0])
    return out


def _mk(rep, m, n):
    from bitarray import bitarray

    return {
        "tuple": lambda: ref.occ(m),
        "str": lambda: ref.to_str(m, n),
        "int": lambda: ref.to_int(m, n),
        "bitarray": lambda: bitarray(ref.to_str(m, n)),
        "bytes": lambda: ref.enc(m, n),
    }[rep]()


def _call(rep, action, i, state, n):
    """Returns (state after, amplitude) of the real function."""
    from impurityModel.ed import create, remove

    mod = create if action == "c" else remove
    if rep == "tuple":
        return mod.utuple(i, state)
    if rep == "str":
        return mod.ustr(i, state)
    if rep == "int":
        return mod.uint(n, i, state)
    if rep == "bytes":
        return mod.ubytes(n, i, state)
    amp = mod.ubitarray(i, state)
    return state, amp


def _step(rep, action, i, m, n):
    """Check one transition; returns (mask, sign) or None."""
    s = _mk(rep, m, n)
    t, amp = _call(rep, action, i, s, n)
    want = ref.act(i, action, m)
    before = _mk(rep, m, n)
    where = f"{rep} {action}{i} on {ref.occ(m)} n={n}"
    if want is None:
        need(amp == 0, where, "must be blocked, amplitude", amp)
        need(s == before, where, "blocked operation changed the state")
        return None
    need(amp == want[1], where, "amplitude", amp, "expected", want[1])
    need(t == _mk(rep, want[0], n), where, "gives", t, "expected", ref.occ(want[0]))
    if rep != "bitarray":
        need(s == before, where, "changed its argument")
    return want


def run(case):
    res = Result()
    kind, n = case[0], case[1]
    if kind == "graph":
        rep = case[2]
        ops = [(i, a) for a in "ca" for i in range(n)]
        trans, seen, todo = {}, {0}, deque([0])
        while todo:
            m = todo.popleft()
            for i, a in ops:
                r = _step(rep, a, i, m, n)
                trans[m, i, a] = r
                res.transitions += 1
                if r is not None and r[0] not in seen:
                    seen.add(r[0])
                    todo.append(r[0])
        need(len(seen) == 1 << n, "Fock graph has", len(seen), "states")
        res.states = len(seen)

        def two(m, x, y):  # amplitude and state of x y |m>
            r = trans[m, y[0], y[1]]
            if r is None:
                return {}
            q = trans[r[0], x[0], x[1]]
            return {} if q is None else {q[0]: r[1] * q[1]}

        for m in seen:
            for x, y in itertools.combinations_with_replacement(ops, 2):
                tot = dict(two(m, x, y))
                for k, v in two(m, y, x).items():
                    tot[k] = tot.get(k, 0) + v
                tot = {k: v for k, v in tot.items() if v}
                want = {m: 1} if x[0] == y[0] and x[1] != y[1] else {}
                need(tot == want, "anticommutator of", x, y, "on", ref.occ(m), "is", tot)
                res.traces += 1
        res.outcomes = {rep}
    elif kind == "wide":
        full = (1 << n) - 1
        step = 32 if case[3] else 8
        edge = sorted({i for b in range(0, n + 1, step) for i in (b - 1, b, b + 1) if 0 <= i < n} | {0, 7, 8, n - 1})
        states = [0, full] + [1 << i for i in edge] + [1 << i | 1 << j for i, j in itertools.combinations(edge, 2)]
        alt = sum(1 << i for i in range(0, n, 2))
        states = list(dict.fromkeys(states + [full ^ s for s in states] + [alt, full ^ alt]))
        for m in states:
            for i in edge:
                for a in "ca":
                    _step(case[2], a, i, m, n)
                    res.transitions += 1
        res.states = len(states)
        res.traces = res.transitions
        res.outcomes = {"wide"}
    else:
        from impurityModel.ed import finite

        if kind == "multi":
            masks = list(range(1 << n))
        else:
            e = [0, 1, n // 2, n - 2, n - 1]
            masks = list(dict.fromkeys([0] + [1 << i for i in e] + [1 << i | 1 << j for i, j in itertools.combinations(e, 2)]))
            if n > 30:
                masks = masks[:4] + masks[6:13:2] + [(1 << n) - 1, (1 << n) - 1 ^ 1 << n // 2, (1 << n) - 1 ^ 1 << n - 2]
        amps = [(1.5, -0.25j), (2, 3)]
        psis = [{}] + [{m: 0.5 - 2j} for m in masks]
        psis += [{p: x, q: y} for p, q in itertools.combinations(masks, 2) for x, y in amps]
        psis.append({m: 1 + k for k, m in enumerate(masks)})
        if kind == "multiwide":
            # several hundred product states
            psis.append({sum(1 << i for i in range(n) if (i * (k + 1) + k // 7) % 11 < 5): 1 + 0.01j * k for k in range(400)})
        for psi in psis:
            res.states += 1
            for i in range(n) if kind == "multi" else e:
                for a, f in (("c", finite.c), ("a", finite.a)):
                    arg = ref.to_code(psi, n)
                    got = f(n, i, arg)
                    want = ref.to_code(ref.apply({((i, a),): 1}, psi), n)
                    need(ref.close(got, want, 1e-14), f"finite.{a}({i}) of {psi} gives {got}")
                    need(set(got) == set(want), "spurious product states", got)
                    need(arg == ref.to_code(psi, n), "argument changed")
                    res.transitions += 1
                    res.traces += 1
        res.outcomes = {kind}
    return res
