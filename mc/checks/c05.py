"""C05: algebra of operators and states.

Every operator string of length <= 3 on 3 spin-orbitals and every pair of strings
of length <= 2 (three amplitudes) through the adjoint and the sum, compared as
matrices over the full Fock space; every pair of states with support <= 2 out of 6
product states through inner product, norm and the additions; every single defect
(dropped, changed, wrongly conjugated partner) of Hermitian operators through the
Hermiticity check; strings of up to 6 letters, operators with hundreds of terms, states with
hundreds of product states, sums of up to 12 operators; strengths and amplitudes from 1e-10 up; all arguments are compared with copies afterwards.
"""

import copy
import itertools

import numpy as np

from mc import ref
from mc.harness import Result, need

ID = "C05"
N = 3
MEANING = "states: operators / pairs of states; transitions: calls of the real functions compared; traces: matrix comparisons over the complete Fock space"
AMPS = [1.0, -0.5j, 2 + 3j, 2, 1e-10]
TINY = 3e-10  # far above the rounding errors (ATOL) of amplitudes of the order of one
WEAK = 1e-4  # strength of weak processes, such as those of a small magnetic field
ATOL = 2e-14


def BOUNDS(tier):
    return dict(spin_orbitals=N, strings="length <= 3, pairs of length <= 2", state_support="<= 2 of 6, plus full; 1 to 1024 of 1024", long="strings of 5 and 6 letters, up to 180 processes, sums of up to 12", amplitudes=len(AMPS))


def WS():
    return [w for k in range(3) for w in ref.words(N, k)]


def cases(tier):
    out = [["single", k] for k in range(4)]
    if tier == "thorough":
        out.append(["single", 4])
    out += [["pair", i] for i in range(len(WS()))]
    out += [["herm", i] for i in range(len(WS()))]
    out += [["triple", i] for i in range(12)]
    out += [["states", i] for i in range(len(psis()))]
    out += [["long", k] for k in range(6)] + [["bigop", k] for k in range(6)] + [["bigstates", k] for k in range(6)]
    return out


def psis():
    masks = [0, 0b001, 0b010, 0b110, 0b111, 0b101]
    out = [{}] + [{m: a} for m in masks for a in (1, -0.5j, TINY)]
    out += [{p: x, q: y} for p, q in itertools.permutations(masks, 2) for x, y in ((1.5, -2j), (0.6, 0.8), (1.0, TINY * 1j))]
    out.append({m: 1 + 0.5j * k for k, m in enumerate(masks)})
    return out


def mat(op):
    return ref.matrix(op, ref.fock(N))


def check_dagger(op, res):
    from impurityModel.ed.finite import daggerOp

    o = dict(op)
    d = daggerOp(o)
    need(o == op, "daggerOp modified its argument", op)
    need(np.allclose(mat(d), mat(op).conj().T, rtol=1e-12, atol=ATOL), "adjoint of", op, "is", d)
    need(d is not o, "adjoint shares storage")
    dd = daggerOp(d)
    need(dd == op, "adjoint of the adjoint of", op, "is", dd)
    res.transitions += 2
    res.traces += 1


def check_sum(ops, res):
    from impurityModel.ed.finite import addOps

    o = copy.deepcopy(ops)
    for arg in (o, tuple(copy.deepcopy(ops))):
        s = addOps(arg)
        need(list(arg) == ops, "addOps modified its arguments", ops)
        need(np.allclose(mat(s), sum([mat(x) for x in ops], np.zeros((1 << N,) * 2)), rtol=1e-12, atol=ATOL), "sum of", ops, "is", s)
        for x in arg:
            need(s is not x, "the sum shares storage with an argument")
        res.transitions += 1
    res.traces += 1


def run(case):
    from impurityModel.ed import finite

    res = Result()
    ws = WS()
    if case[0] == "single":
        for w in ref.words(N, case[1]):
            for a in AMPS:
                check_dagger({w: a}, res)
                res.states += 1
        for bad in ("x", "A", ""):
            try:
                finite.daggerOp({((0, bad),): 1.0})
            except Exception:
                res.outcomes.add("unknown action refused")
            else:
                need(False, "unknown action %r accepted" % bad)
    elif case[0] == "pair":
        w = ws[case[1]]
        for v in ws:
            if v != w:
                check_dagger({w: 1.0, v: 0.25 - 2j}, res)
            for a, b in ((1.0, 0.5j), (2.0, -2.0), (0, 1.5), (1.0, TINY), (TINY * 1j, TINY), (1.0, TINY - 1)):
                check_sum([{w: a}, {v: b}], res)
            res.states += 1
    elif case[0] == "triple":
        sel = [(), ((0, "c"),), ((0, "c"), (1, "a")), ((1, "c"), (0, "a")), ((2, "c"), (1, "c"), (0, "a"), (1, "a"))]
        ops = [{}] + [{p: x, q: y} for p, q in itertools.combinations(sel, 2) for x, y in ((1.0, -1j),)] + [{sel[3]: -1.0}]
        for y, z in itertools.product(range(len(ops)), repeat=2):
            check_sum([ops[case[1] % len(ops)], ops[y], ops[z]], res)
            res.states += 1
        check_sum([], res)
        check_sum([ops[case[1] % len(ops)]], res)
    elif case[0] == "herm":
        w = ws[case[1]]
        for v, scale in itertools.product(ws, (1.0, WEAK)):
            op = {}
            wd, vd = [next(iter(ref.adjoint({x: 1}))) for x in (w, v)]
            for x, xd, a in ((w, wd, scale * (0.5 + 2j)), (v, vd, -1.5j)):
                if x == xd:
                    op[x] = 3.0
                else:
                    op[x], op[xd] = a, np.conj(a)
            o = dict(op)
            finite.assert_hermitian(o)
            need(o == op, "assert_hermitian modified its argument")
            res.transitions += 1
            for k in op if scale == 1 else {w, wd}:
                # the defect is as strong as the process itself
                for bad in ("drop", "value", "conj"):
                    b = dict(op)
                    kd = next(iter(ref.adjoint({k: 1})))
                    if bad == "drop":
                        if k == kd:
                            continue
                        del b[k]
                    elif bad == "value":
                        b[k] = b[k] + scale * (0.125 if k != kd else 0.125j)
                    else:
                        if k == kd:
                            continue
                        b[k] = np.conj(b[k])
                    try:
                        finite.assert_hermitian(b)
                    except AssertionError:
                        pass
                    else:
                        need(False, "assert_hermitian accepts", b)
                    res.transitions += 1
            res.states += 1
        res.outcomes = {"hermiticity"}
    elif case[0] == "long":
        letters = [(i, a) for i in range(N) for a in "ca"]
        for tail in itertools.product(letters, repeat=4):
            check_dagger({(letters[case[1]],) + tail: 0.5 - 2j}, res)
            res.states += 1
        for tail in itertools.product(letters, repeat=2):
            # six letters: mirror images and partners of them
            w = (letters[case[1]],) + tail
            for v in (w + w[::-1], w + w, w + tuple((i, "c" if a == "a" else "a") for i, a in w[::-1])):
                check_dagger({v: 0.5 - 2j, w: 1.0}, res)
                check_sum([{v: 1.0, w: 2.0}, {w: -2.0, v[:5]: 1j}], res)
                res.states += 1
        res.outcomes = {"long strings"}
    elif case[0] == "bigop":
        k = case[1]
        big = {w: 1 + 0.5 * i - 0.25j * (i % (k + 2)) for i, w in enumerate(ws)}
        long = {w: 0.5j * (1 + i % 5) for i, w in enumerate(itertools.islice(ref.words(N, 3), k, None, 2))}
        for op in (big, long, {**big, **long}):
            check_dagger(op, res)
            res.states += 1
        for num in range(12):
            check_sum([big] * min(num, 1) + [{ws[(5 * i + k) % len(ws)]: 1.0 + i, ws[(7 * i + k) % len(ws)]: 1j} for i in range(num)] + [long], res)
            check_sum([long, big, {x: -v for x, v in list(long.items())[:90]}][:num % 4], res)
        herm = {}
        for w, a in list(big.items()) + list(long.items())[:60]:
            wd = next(iter(ref.adjoint({w: 1})))
            if w == wd:
                herm[w] = 3.0
            else:
                herm[w], herm[wd] = a, np.conj(a)
        finite.assert_hermitian(dict(herm))
        for w in list(herm)[k::6]:
            for f in (lambda a: a + (0.125 if abs(np.imag(a)) < 1e-12 and next(iter(ref.adjoint({w: 1}))) != w else 0.125j), lambda a: None):
                b = dict(herm)
                b[w] = f(b[w])
                if b[w] is None:
                    if next(iter(ref.adjoint({w: 1}))) == w:
                        continue
                    del b[w]
                try:
                    finite.assert_hermitian(b)
                except AssertionError:
                    pass
                else:
                    need(False, "assert_hermitian accepts an operator of", len(b), "processes with a defect at", w)
                res.transitions += 1
        res.outcomes = {"large operators"}
    elif case[0] == "bigstates":
        n, k = 10, case[1]
        f = list(range(1 << n))
        sets = [f[k::7], f[k::3], f[:200 + k], f[150:600], [k], f]
        ss = [{m: 0.5 + 0.001 * m - 0.25j * ((m + i) % 5) for m in ms} for i, ms in enumerate(sets)]
        for x, y in itertools.product(ss, repeat=2):
            a, b = ref.to_code(x, n), ref.to_code(y, n)
            a0, b0 = dict(a), dict(b)
            vx, vy = ref.vec(x, f), ref.vec(y, f)
            need(abs(finite.inner(a, b) - np.vdot(vx, vy)) < 1e-9, "inner of states with", len(x), "and", len(y), "product states")
            need(abs(finite.norm2(a) - np.vdot(vx, vx).real) < 1e-9, "norm2 of a state with", len(x), "product states")
            for mul in (1, -1, 0.5j):
                s = finite.add(a, b, mul=mul)
                need(a == a0 and b == b0, "add modified a state")
                need(np.allclose(ref.vec(ref.from_code(s, n), f), vx + mul * vy, rtol=1e-12, atol=1e-12), "sum of states with", len(x), "and", len(y), "product states")
                c = dict(a)
                finite.addToFirst(c, b, mul)
                need(b == b0 and np.allclose(ref.vec(ref.from_code(c, n), f), vx + mul * vy, rtol=1e-12, atol=1e-12), "addToFirst of states with", len(x), "and", len(y), "product states")
                res.transitions += 2
            res.states += 1
            res.traces += 1
        res.outcomes = {"large states"}
    else:
        ps = psis()
        x = ps[case[1]]
        f = ref.fock(N)
        vx = ref.vec(x, f)
        for y in ps:
            vy = ref.vec(y, f)
            a, b = ref.to_code(x, N), ref.to_code(y, N)
            a0, b0 = dict(a), dict(b)
            need(abs(finite.inner(a, b) - np.vdot(vx, vy)) < ATOL, "inner", x, y, finite.inner(a, b))
            need(abs(finite.norm2(a) - np.vdot(vx, vx).real) <= 1e-12 * np.vdot(vx, vx).real, "norm2", x)
            need(abs(finite.inner(a, a) - np.vdot(vx, vx)) <= 1e-12 * np.vdot(vx, vx).real, "inner", x, x)
            need(a == a0 and b == b0, "inner or norm2 modified a state")
            for mul in (None, 1, -2, 0.5j, 0):
                kw = {} if mul is None else {"mul": mul}
                m = 1 if mul is None else mul
                s = finite.add(a, b, **kw)
                need(a == a0 and b == b0, "add modified a state", x, y)
                need(s is not a and s is not b, "add returns its argument")
                need(np.allclose(ref.vec(ref.from_code(s, N), f), vx + m * vy, rtol=1e-12, atol=ATOL), "add", x, y, m, "gives", s)
                c = dict(a)
                r = finite.addToFirst(c, b, **kw)
                need(b == b0, "addToFirst modified its second argument")
                need(np.allclose(ref.vec(ref.from_code(c, N), f), vx + m * vy, rtol=1e-12, atol=ATOL), "addToFirst", x, y, m, "gives", c)
                need(r is None or r is c, "addToFirst returns", r)
                res.transitions += 2
            c = dict(a)
            finite.addToFirst(c, c, 2)
            need(np.allclose(ref.vec(ref.from_code(c, N), f), 3 * vx), "addToFirst of a state to itself gives", c)
            res.states += 1
            res.traces += 1
        res.outcomes = {"states"}
    return res
